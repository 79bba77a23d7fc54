From a604f58c4a77aea5744dec5aba72da4aa35aba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 01/67] fix: report the request URI correctly when the target
 ends with an empty query ("/path?")

---
 pillowcore/HttpConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..5b91a66 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -263,10 +263,10 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == 0 || _parser.request_path_len == _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
-		// will not destroy the uri (which does not include the fragment).
+		// The request uri has no query string (not even an empty one), we can use the data straight because it means that inserting
+		// null after the path will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
 	else
-- 
2.43.0


From 5f233a52dcb958402062dd14aa6939250e69d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 02/67] fix: send a status line with a numeric code when given
 an unknown status code

The status line was "HTTP/1.1 Internal Server Error", without "500".
---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 5b91a66..4648161 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -456,7 +456,8 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCode = 500; // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 1fa37a91caed9f7106ffb77cec88558dc31264eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/67] fix: do not truncate response content lengths over
 2^31-1 to an int

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 4648161..8ee0753 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -544,7 +544,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 063223032f4bd733c15647ee76c917fd63c8e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 04/67] fix: treat a negative response content-length as an
 invalid one

"Content-Length: -5" was sent to the client.
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 8ee0753..a22f3e3 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -477,7 +477,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
-- 
2.43.0


From 0677b6f32f1156b56918a7a0b5bac42c4670005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 05/67] fix: do not write to Qt's read-only shared null when
 reusing a connection

Reinitializing a connection that had received a large request crashed.
---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index a22f3e3..5c8ccc4 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -143,8 +143,8 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_parser.http_field = &HttpConnectionPrivate::parser_http_field;
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
-	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	if (_requestBuffer.capacity() > Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.clear();
+	else if (!_requestBuffer.isEmpty()) _requestBuffer.data_ptr()->size = 0; // Never write to the shared null of a cleared buffer.
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
-- 
2.43.0


From 44fcdfc6b42a84a030cbbc5a388b15b0bcbcf685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 06/67] fix: do not apply the end of a response to the next
 pipelined request

When the headers complete a response (HEAD, or zero length), the next
pipelined request is received before writeHeaders() returns. Its fields were
then used to decide whether to send the first response's content (which was
sent as a body to HEAD, from a freed buffer), and to disable keep-alive.
---
 pillowcore/HttpConnection.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 5c8ccc4..c255adc 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -108,7 +108,7 @@ namespace Pillow
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
-		void transitionToSendingContent();
+		bool transitionToSendingContent(); // Returns whether content is still expected for the current response.
 		void transitionToCompleted();
 		void flush();
 		void drain();
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -297,9 +297,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	emit q_ptr->requestReady(q_ptr);
 }
 
-inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
+inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 {
-	if (_state == Pillow::HttpConnection::SendingContent) return;
+	if (_state == Pillow::HttpConnection::SendingContent) return true;
 	_state = Pillow::HttpConnection::SendingContent;
 
 	if (_responseHeadersBuffer.capacity() > 4096)
@@ -307,14 +307,18 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
-		transitionToCompleted();
-
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+
+	if (_responseContentLength == 0 || _requestMethod == headToken)
+	{
+		transitionToCompleted();
+		return false; // From here on, the connection may already be serving its next request.
+	}
+	return true;
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -439,16 +443,15 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	if (writeHeaders(statusCode, headers) && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -550,7 +553,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
-	transitionToSendingContent();
+	return transitionToSendingContent();
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From f8e4d133cfc615f67f84b17c8a2f33c0796c4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 07/67] fix: do not revive a connection that gets closed while
 completing a request

A close() from a requestCompleted handler, or a disconnection noticed while
flushing the response, made the closed connection go on receiving from a null
device.
---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index c255adc..fe12359 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -330,6 +330,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // Closed by somebody reacting to the signal.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -348,6 +349,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // Closed because the client went away.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From e92d8112b6fa72caf2879e22eeea381ef7d7a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 08/67] fix: process pipelined requests in a loop instead of
 recursively

A client that pipelined some thousands of small requests in one burst made the
server overflow its stack when they are answered from the requestReady signal.
---
 pillowcore/HttpConnection.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index fe12359..cbe9cdf 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -3,6 +3,7 @@
 #include "private/ByteArray.h"
 #include "parser/parser.h"
 #include <QtCore/QIODevice>
+#include <QtCore/QPointer>
 #include <QtCore/QTimer>
 #include <QtCore/QUrl>
 #include <QtCore/QStringBuilder>
@@ -79,6 +80,7 @@ namespace Pillow
 	public:
 		Pillow::HttpConnection::State _state;
 		QIODevice* _inputDevice,* _outputDevice;
+		bool _processingInput, _moreInputToProcess;
 		http_parser _parser;
 
 		// Request fields.
@@ -104,6 +106,7 @@ namespace Pillow
 	public:
 		void initialize();
 		void processInput();
+		void processAvailableInput();
 		void setupRequestHeaders();
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
@@ -129,7 +132,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInputToProcess(false)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -155,6 +158,22 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 }
 
 inline void Pillow::HttpConnectionPrivate::processInput()
+{
+	_moreInputToProcess = true;
+	if (_processingInput) return; // Called back while processing input: let the loop below do it, so that pipelined requests don't pile up on the stack.
+
+	QPointer<Pillow::HttpConnection> self(q_ptr);
+	_processingInput = true;
+	while (_moreInputToProcess)
+	{
+		_moreInputToProcess = false;
+		processAvailableInput();
+		if (self.isNull()) return; // Deleted by somebody reacting to a signal.
+	}
+	_processingInput = false;
+}
+
+inline void Pillow::HttpConnectionPrivate::processAvailableInput()
 {
 	if (_state != Pillow::HttpConnection::ReceivingHeaders && _state != Pillow::HttpConnection::ReceivingContent) return;
 
-- 
2.43.0


From 12a2be1bcc1fcb8f5d94677cb71e6c6da2d6eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 09/67] fix: a request starts with neither an uninitialized nor
 the previous request's response status

---
 pillowcore/HttpConnection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index cbe9cdf..af1ee84 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -132,7 +132,8 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInputToProcess(false)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInputToProcess(false),
+	  _responseStatusCode(0), _responseContentLength(-1), _responseContentBytesSent(0), _responseConnectionKeepAlive(true), _responseChunkedTransferEncoding(false)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -309,6 +310,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	setFromRawData(_requestContent, _requestBuffer.constData(), static_cast<int>(_parser.body_start), _requestContentLength);
 
 	// Reset our known information about the response.
+	_responseStatusCode = 0;       // No response status chosen yet.
 	_responseContentLength = -1;   // The response content-length is initially unknown.
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
-- 
2.43.0


From 1aa283a06255ff5a093bfd63ec8a0fb7d06e3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 10/67] fix: do not corrupt the request buffer when reading
 from the device fails

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index af1ee84..ec1d96f 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -184,7 +184,7 @@ inline void Pillow::HttpConnectionPrivate::processAvailableInput()
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
-		_requestBuffer.data_ptr()->size += bytesRead;
+		if (bytesRead > 0) _requestBuffer.data_ptr()->size += bytesRead;
 		_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
 	}
 
-- 
2.43.0


From ba8d2cb44dcdf501a4fbd9dee73f5dc5cd642b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 11/67] fix: do not serve files of directories whose name
 extends the public path's

---
 pillowcore/HttpHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..b3cfb15 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -278,13 +278,14 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 
 	QString requestPath = QByteArray::fromPercentEncoding(connection->requestPath());
 	QString resultPath = _publicPath + requestPath;
+	QString publicPathPrefix = _publicPath.endsWith('/') ? _publicPath : _publicPath + '/'; // "/public" must not allow access to "/public2".
 	QFileInfo resultPathInfo(resultPath);
 
 	if (!resultPathInfo.exists())
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(publicPathPrefix))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From 4fa0bd8b0b0531600ae4cdb757f0d8b697cf717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 12/67] fix: keep file transfers within the content length
 sent, and close the connection when the file becomes shorter

---
 pillowcore/HttpHandler.cpp | 27 +++++++++++++++++++++------
 pillowcore/HttpHandler.h   |  4 ++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index b3cfb15..ab3f852 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -344,7 +344,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpConnection *connection, int bufferSize)
-	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize)
+	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize), _bytesRemaining(connection->responseContentLength())
 {
 	if (bufferSize < 512)
 	{
@@ -353,8 +353,8 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	}
 
 	connect(sourceDevice, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
+	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
 	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
 }
@@ -366,13 +366,28 @@ void HttpHandlerFileTransfer::writeNextPayload()
 	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
 	if (bytesToRead <= 0) return;
 	qint64 bytesAvailable = _sourceDevice->size() - _sourceDevice->pos();
+	if (_bytesRemaining >= 0 && bytesAvailable > _bytesRemaining) bytesAvailable = _bytesRemaining; // The source may have grown since its length was sent.
 	if (bytesToRead > bytesAvailable) bytesToRead = bytesAvailable;
 
-	if (bytesToRead > 0)
+	QByteArray payload;
+	if (bytesToRead > 0) payload = _sourceDevice->read(bytesToRead);
+
+	if (!payload.isEmpty())
 	{
-		_connection->writeContent(_sourceDevice->read(bytesToRead));
+		if (_bytesRemaining > 0) _bytesRemaining -= payload.size();
+		_connection->writeContent(payload);
 
-		if (_sourceDevice->atEnd())
+		if (_bytesRemaining == 0 || (_bytesRemaining < 0 && _sourceDevice && _sourceDevice->atEnd()))
 			emit finished();
 	}
+	else if (_bytesRemaining > 0)
+	{
+		_connection->close(); // The source has become shorter than the length that was sent: the response can't be completed.
+	}
+}
+
+void HttpHandlerFileTransfer::stop()
+{
+	_connection = NULL; // It may already be serving another request.
+	deleteLater();
 }
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..b767683 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -204,6 +204,7 @@ namespace Pillow
 		QPointer<QIODevice> _sourceDevice;
 		QPointer<HttpConnection> _connection;
 		int _bufferSize;
+		qint64 _bytesRemaining; // Or -1 when the length of the response is not known.
 
 	public:
 		HttpHandlerFileTransfer(QIODevice* sourceDevice, Pillow::HttpConnection* connection, int bufferSize = HttpHandlerFile::DefaultBufferSize);
@@ -211,6 +212,9 @@ namespace Pillow
 	public slots:
 		void writeNextPayload();
 
+	private slots:
+		void stop();
+
 	signals:
 		void finished();
 	};
-- 
2.43.0


From 0715693580d602a3b840d21898747b3e7d38d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 13/67] fix: do not start a file transfer for a HEAD request

---
 pillowcore/HttpHandler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index ab3f852..202d5ec 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -326,8 +326,15 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
+			const bool withoutContent = connection->requestMethod() == "HEAD"; // Check before the response possibly completes.
 			connection->writeHeaders(200, headers);
 
+			if (withoutContent || connection->outputDevice() == NULL)
+			{
+				delete file; // There is no content to send (or nobody to send it to anymore).
+				return true;
+			}
+
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
-- 
2.43.0


From 19d9f47733b0db460feb779849cbaf4f79d414ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 14/67] fix: bind route params to their own names, and match
 the other characters of a route literally

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 36 ++++++++------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..4caa811 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -190,34 +190,20 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray &method, const QString &
 
 QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringList* outParamNames)
 {
-	QString path = p;
-
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// Params (":name") and splats ("*name") are captured in their order of appearance; everything else must match as is.
+	QRegExp paramRegex("([:*])(\\w+)");
+	QString paramReplacement("([\\w_-]+)"), splatReplacement("(.*)");
 	QStringList paramNames;
-	int pos = 0;
-	while (pos >= 0)
-	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
+	QString path;
+	int literalPos = 0, pos;
+	while ((pos = paramRegex.indexIn(p, literalPos)) >= 0)
 	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		path += QRegExp::escape(p.mid(literalPos, pos - literalPos));
+		path += paramRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
+		paramNames << paramRegex.cap(2);
+		literalPos = pos + paramRegex.matchedLength();
 	}
-	path.replace(splatRegex, splatReplacement);
+	path += QRegExp::escape(p.mid(literalPos));
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 169235b7b6d67564b20d385ef563147a21ce222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 15/67] fix: do not report a request as handled when the
 route's target declined it or is gone

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 4caa811..cb492cc 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -236,8 +236,7 @@ bool HttpHandlerSimpleRouter::handleRequest(Pillow::HttpConnection *request)
 			{
 				for (int i = 0, iE = route->paramNames.size(); i < iE; ++i)
 					request->setRequestParam(route->paramNames.at(i), route->regExp.cap(i + 1));
-				route->invoke(request);
-				return true;
+				return route->invoke(request); // Nobody will answer the request if the target declined it or is gone.
 			}
 		}
 	}
-- 
2.43.0


From 1392ddad93de8f19b58062cb5a7232f5e47d6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 16/67] fix: access log lines were garbled when the URI
 contained placeholders such as %2F

---
 pillowcore/HttpHandler.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 202d5ec..a794360 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,8 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(), QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion())); // All at once: the URI can contain "%2" and the like.
 
 		log(logEntry);
 	}
@@ -175,11 +174,10 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(), QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +192,10 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(), QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From 69d60037066ba1e4f90911d916c3b0c18cb577cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 17/67] fix: the access log's CLOSE entries read request data
 that is not valid anymore

---
 pillowcore/HttpHandler.cpp | 44 +++++++++++++++++++++++++-------------
 pillowcore/HttpHandler.h   |  4 ++--
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index a794360..3fcd10d 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -116,6 +116,16 @@ bool HttpHandlerFunction::handleRequest(HttpConnection *connection)
 // HttpHandlerLog
 //
 
+namespace Pillow
+{
+	struct HttpHandlerLogEntry
+	{
+		QElapsedTimer timer;
+		bool open; // Whether a request was received since the connection was last closed.
+		QByteArray method, uri, httpVersion; // Copies: the connection's are not valid anymore when it gets closed.
+	};
+}
+
 HttpHandlerLog::HttpHandlerLog(QObject *parent)
 	: HttpHandler(parent), _mode(LogCompletedRequests), _device(0)
 {
@@ -133,21 +143,24 @@ HttpHandlerLog::HttpHandlerLog(QIODevice *device, QObject *parent)
 
 HttpHandlerLog::~HttpHandlerLog()
 {
-	foreach (QElapsedTimer* timer, _requestTimerMap)
-		delete timer;
+	qDeleteAll(_requestMap);
 }
 
 bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer == NULL)
+	HttpHandlerLogEntry* request = _requestMap.value(connection, NULL);
+	if (request == NULL)
 	{
-		timer = _requestTimerMap[connection] = new QElapsedTimer();
+		request = _requestMap[connection] = new HttpHandlerLogEntry();
 		connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
-	timer->start();
+	request->timer.start();
+	request->open = true;
+	request->method = connection->requestMethod(); request->method.detach();
+	request->uri = connection->requestUri(); request->uri.detach();
+	request->httpVersion = connection->requestHttpVersion(); request->httpVersion.detach();
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -167,12 +180,12 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer)
+	HttpHandlerLogEntry* request = _requestMap.value(connection, NULL);
+	if (request)
 	{
 		const char* formatString = (_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = request->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(), QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
 					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
@@ -185,27 +198,28 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
+	HttpHandlerLogEntry* request = _requestMap.value(connection, NULL);
+	if (request && request->open && _mode == TraceRequests)
 	{
 		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = request->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(), QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString(request->method), QString(request->uri), QString(request->httpVersion),
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
+
+	if (request) request->open = false;
 }
 
 void HttpHandlerLog::requestDestroyed(QObject *r)
 {
 	HttpConnection* connection = static_cast<HttpConnection*>(r);
-	delete _requestTimerMap.value(connection, NULL);
-	_requestTimerMap.remove(connection);
+	delete _requestMap.take(connection);
 }
 
 void HttpHandlerLog::log(const QString &entry)
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index b767683..65c73dc 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -18,11 +18,11 @@
 #endif // Q_COMPILER_LAMBDA
 
 class QIODevice;
-class QElapsedTimer;
 
 namespace Pillow
 {
 	class HttpConnection;
+	struct HttpHandlerLogEntry;
 
 	//
 	// HttpHandler: abstract handler interface. Does nothing.
@@ -163,7 +163,7 @@ namespace Pillow
 		void log(const QString& entry);
 
 	private:
-		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		QHash<Pillow::HttpConnection*, HttpHandlerLogEntry*> _requestMap;
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From 69365c75c124c5a53862fbf42231bce128743e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 18/67] fix: format the smallest negative number correctly

---
 pillowcore/ByteArrayHelpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index f73f237..3571828 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -115,8 +115,8 @@ namespace Pillow
 		{
 			static const char intToChar[16] = { '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f' };
 			int start = target.size();
-			Integer n = number; if (n < 0) n = -n;
-			do { if (Base <= 10) target.append(char(n % Base) + '0'); else target.append(intToChar[n % Base]); } while ((n /= Base) > 0);
+			Integer n = number; // Not negated: the smallest number has no positive counterpart.
+			do { const int digit = static_cast<int>(n % Base); target.append(intToChar[digit < 0 ? -digit : digit]); } while ((n /= Base) != 0);
 			if (number < 0) target.append('-');
 
 			// Reverse the string we've just output
-- 
2.43.0


From fc99049172eb749e9e29fec32687c8561c62da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 19/67] fix: appending a header collection onto itself read
 freed and null headers

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..4f397d2 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
+	const QVector<HttpHeader> source = l; // A shallow copy: l may be this same collection.
 	int oldSize = size();
-	resize(size() + l.size());
+	resize(oldSize + source.size());
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
-	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *src = source.begin();
+	const Pillow::HttpHeader *srcE = source.end();
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From ca9e74b591a0de350428ca2f4f1b436bd61286a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 20/67] fix: the response parser lost the last trailer, and
 mixed leftover header data into the next response

---
 pillowcore/HttpClient.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..d49ceab 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -241,6 +241,9 @@ void Pillow::HttpResponseParser::clear()
 	http_parser_init(&parser, HTTP_RESPONSE);
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
+	_lastWasValue = false;
 
 	if (_parsing) pause(); // clear() got called from a callback. gracefully recover by pausing the parser.
 }
@@ -255,6 +258,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
@@ -317,6 +322,7 @@ int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *
 int Pillow::HttpResponseParser::parser_on_message_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
+	self->pushHeader(); // The last trailer of a chunked response, if any.
 	self->messageComplete();
 
 	// Pause the parser to avoid parsing the next message (if there is another one in the buffer).
-- 
2.43.0


From 990773eb8eecd8ecb27628287f9e4cf36f801bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 21/67] fix: do not wait for the content of a 304 response that
 has a Content-Length

---
 pillowcore/HttpClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d49ceab..cea8074 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -309,7 +309,10 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
 	self->headersComplete();
-	return 0;
+
+	// These responses never have a body, even if they have a Content-Length (see RFC 2616, section 4.4). 1 tells the parser so.
+	const int status = parser->status_code;
+	return (status / 100 == 1 || status == 204 || status == 304) ? 1 : 0;
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
-- 
2.43.0


From f937e1355ead83a6b167cc762b14403ec001924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 22/67] fix: complete a response that ends with its connection,
 after reading all of it, and survive requests made while the connection
 breaks

A response without length or chunked coding was reported as RemoteHostClosedError when the server closed the connection,
and content still waiting for consumeContent() was dropped. A request made inside the finished() signal of a failed
one connected the socket while Qt was still disconnecting it, and a request made while the previous connection was closing
(with data left to send) failed.
---
 pillowcore/HttpClient.cpp | 89 +++++++++++++++++++++++++++++----------
 pillowcore/HttpClient.h   |  6 +++
 2 files changed, 72 insertions(+), 23 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index cea8074..ea95aef 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -350,7 +350,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _remoteHostClosed(false), _deviceFailing(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -485,6 +485,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 	_request = request;
 	_responsePending = true;
+	_remoteHostClosed = false;
 	_error = NoError;
 	clear();
 
@@ -505,9 +506,14 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
         else
             _hostHeaderValue.clear();
 
-		if (_device->state() != QAbstractSocket::UnconnectedState)
-			_device->disconnectFromHost();
-		_device->connectToHost(_request.url.host(), _request.url.port(80));
+		if (_deviceFailing)
+			QTimer::singleShot(0, this, SLOT(connectDevice()));
+		else
+		{
+			if (_device->state() != QAbstractSocket::UnconnectedState)
+				_device->abort();
+			connectDevice();
+		}
 	}
 }
 
@@ -546,20 +552,63 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
-	switch (error)
+	// The device goes on breaking its connection after having emitted this signal: a new one must not be started until it is done.
+	_deviceFailing = true;
+	if (error == QAbstractSocket::RemoteHostClosedError)
 	{
-	case QAbstractSocket::RemoteHostClosedError:
-		_error = RemoteHostClosedError;
-		break;
-	default:
-		_error = NetworkError;
+		_remoteHostClosed = true;
+		completeOnRemoteHostClosed();
 	}
+	else
+	{
+		finishWithError(NetworkError);
+	}
+	_deviceFailing = false;
+}
 
-	_device->close();
+void Pillow::HttpClient::completeOnRemoteHostClosed()
+{
+	if (Pillow::HttpResponseParser::isParsing() || _device->bytesAvailable() > 0)
+		return; // What was received before must be handled (and consumed) first.
+
+	injectEof(); // Completes the response if its end is the end of the connection.
+
+	if (responsePending())
+		finishWithError(RemoteHostClosedError);
+	else
+		sendPendingRequest();
+}
+
+void Pillow::HttpClient::finishWithError(Pillow::HttpClient::Error error)
+{
+	_error = error;
+	_device->abort();
 	_responsePending = false;
 	emit finished();
 }
 
+void Pillow::HttpClient::sendPendingRequest()
+{
+	if (!responsePending() && !_pendingRequest.method.isNull())
+	{
+		// We got a new request while in callback.
+		Pillow::HttpClientRequest r = _pendingRequest;
+		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
+		request(r);
+	}
+}
+
+void Pillow::HttpClient::connectDevice()
+{
+	if (!responsePending()) return; // Aborted since.
+
+	// The previous connection might still have something to send. Not waiting for that: the device could not connect until done.
+	if (_device->state() == QAbstractSocket::ClosingState)
+		_device->abort();
+	if (_device->state() == QAbstractSocket::UnconnectedState)
+		_device->connectToHost(_request.url.host(), _request.url.port(80));
+}
+
 void Pillow::HttpClient::device_connected()
 {
 	sendRequest();
@@ -624,10 +673,7 @@ void Pillow::HttpClient::device_readyRead()
 
 		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
 		{
-			_error = ResponseInvalidError;
-			_device->close();
-			_responsePending = false;
-			emit finished();
+			finishWithError(ResponseInvalidError);
 		}
 	}
 
@@ -637,15 +683,12 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
-	// Response completed or got aborted in a callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
-	{
-		// Plus we got a new request while in callback.
-		Pillow::HttpClientRequest r = _pendingRequest;
-		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
-		request(r);
-	}
+	// Response completed or got aborted in a callback, plus we got a new request while in callback.
+	sendPendingRequest();
 
+	// Or was this the last of what the server had sent?
+	if (responsePending() && _remoteHostClosed)
+		completeOnRemoteHostClosed();
 }
 
 void Pillow::HttpClient::sendRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..77e839c 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -227,9 +227,13 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void connectDevice();
 
 	private:
 		void sendRequest();
+		void sendPendingRequest();
+		void completeOnRemoteHostClosed();
+		void finishWithError(Error error);
 
 	protected:
 		void messageBegin();
@@ -244,6 +248,8 @@ namespace Pillow
 		Pillow::HttpRequestWriter _requestWriter;
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
+		bool _remoteHostClosed; // Whether the server has closed the connection of the pending response.
+		bool _deviceFailing; // Whether we are called back by the device while it is breaking its connection.
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 77b98e23948c1f452c679bf34d36c430fd7f947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 23/67] fix: handle any number of 100 Continue responses
 received at once

---
 pillowcore/HttpClient.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ea95aef..8d71c58 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -654,24 +654,20 @@ void Pillow::HttpClient::device_readyRead()
 
 		if (!hasError())
 		{
-			if (consumed < _buffer.size())
+			while (consumed < _buffer.size() && responsePending() && !hasError())
 			{
 				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
+				// It was a 100 Continue since we are still response pending. There can be many of them before the real response.
 				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
-
-				if (consumed < _buffer.size())
-				{
-					qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
-				}
 			}
-			else
+
+			if (consumed < _buffer.size() && !hasError())
 			{
-				// Just waiting for more data to consume.
+				qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
 			}
 		}
 
-		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
+		if (responsePending() && hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
 		{
 			finishWithError(ResponseInvalidError);
 		}
-- 
2.43.0


From 354309aabb7f1d28ed718828f037982f83274b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 24/67] fix: finish a HEAD request aborted in
 headersCompleted() only once

---
 pillowcore/HttpClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 8d71c58..3b3b735 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -727,6 +727,9 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!responsePending())
+		return; // Aborted in the callback.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From bb2a3e65bb5ae1ad81ad0be85c0bbf6e12e0649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 25/67] fix: do not decode a response with the gzip state of an
 earlier, incomplete one

---
 pillowcore/HttpClient.cpp | 11 ++++++++++-
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 3b3b735..53b7b8b 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -360,6 +360,11 @@ Pillow::HttpClient::HttpClient(QObject *parent)
 	_keepAliveTimeoutTimer.invalidate();
 }
 
+Pillow::HttpClient::~HttpClient()
+{
+	delete _contentDecoder;
+}
+
 int Pillow::HttpClient::keepAliveTimeout() const
 {
 	return _keepAliveTimeout;
@@ -489,6 +494,10 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	_error = NoError;
 	clear();
 
+	// The previous response might not have been received completely.
+	delete _contentDecoder;
+	_contentDecoder = 0;
+
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
 	const bool sameServer = _request.url.host() == previousHost && _request.url.port() == previousPort;
 	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout >= 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout));
@@ -743,7 +752,7 @@ void Pillow::HttpClient::headersComplete()
 			const Pillow::HttpHeader& header = _headers.at(i);
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				if (_contentDecoder == 0 && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
 					_contentDecoder = new Pillow::GunzipContentTransformer();
 			}
 		}
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 77e839c..5a5b272 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -174,6 +174,7 @@ namespace Pillow
 
 	public:
 		HttpClient(QObject* parent = 0);
+		~HttpClient();
 
 		// keepAliveTimeout: Maximum time, in milliseconds, for which the client will keep an established connection channel
 		//                   between requests to the same host. Use 0 to disable keep-alive.
-- 
2.43.0


From e169169da1ff87011b7ac57526217d9d8c69cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 26/67] fix: follow redirections to relative locations

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 53b7b8b..6981009 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -548,7 +548,7 @@ void Pillow::HttpClient::followRedirection()
 	}
 
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation())); // The location can be relative.
 	request(newRequest);
 }
 
-- 
2.43.0


From fef6184876e6e3301a96bdfea86f5f8d799ec170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 27/67] fix: the gzip decoder lost content that is not gzip
 after all, and what follows the first member

---
 pillowcore/HttpClient.cpp | 70 +++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 6981009..c37f0e0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -32,13 +32,14 @@ namespace Pillow
 	public:
 		virtual ~ContentTransformer() {}
 		virtual QByteArray transform(const char *data, int length) = 0;
+		virtual QByteArray finish() = 0; // To call at the end of the content. Returns what was held back so far.
 	};
 
 #ifdef PILLOW_ZLIB
 	class GunzipContentTransformer : public ContentTransformer
 	{
 	public:
-		GunzipContentTransformer(): _streamBad(false)
+		GunzipContentTransformer(): _streamBad(false), _memberEnded(false), _memberCount(0), _hasOutput(false), _trailingGarbage(false)
 		{
 			memset(&_inflateStream, 0, sizeof(z_stream));
 			inflateInit2(&_inflateStream, 31);
@@ -57,24 +58,48 @@ namespace Pillow
             else
                 _inflatedBuffer.clear();
 
+			// Until there is some output, keep the input: it will have to be passed through if it turns out not to be gzip.
+			if (!_streamBad && !_hasOutput && _memberCount == 0)
+				_heldInput.append(data, length);
+
 			_inflateStream.next_in = const_cast<unsigned char*>(reinterpret_cast<const unsigned char*>(data));
 			_inflateStream.avail_in = length;
 
-			do
+			while (!_streamBad && !_trailingGarbage && _inflateStream.avail_in > 0)
 			{
+				if (_memberEnded)
+				{
+					// There is something after the end of the compressed data: another member, that has to be appended (see RFC 1952, section 2.2).
+					inflateReset(&_inflateStream);
+					_memberEnded = false;
+				}
+
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = inflate(&_inflateStream, Z_NO_FLUSH);
+				if (result < 0) // Less than 0 is error.
 				{
+					if (_memberCount > 0)
+					{
+						// Garbage after the compressed data. Ignore it.
+						_trailingGarbage = true;
+						break;
+					}
+
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
 					break;
 				}
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
+
+				if (result == Z_STREAM_END)
+				{
+					_memberEnded = true;
+					++_memberCount;
+				}
 			}
-			while (_inflateStream.avail_in > 0 && _inflateStream.avail_out == 0);
 
 			if (_streamBad)
 			{
@@ -82,16 +107,36 @@ namespace Pillow
                     _inflatedBuffer.data_ptr()->size = 0;
                 else
                     _inflatedBuffer.clear();
-                _inflatedBuffer.append(data, length);
+
+				if (_heldInput.isEmpty())
+					_inflatedBuffer.append(data, length);
+				else
+					_inflatedBuffer.append(_heldInput); // Includes data.
+				_heldInput.clear();
+			}
+			else if (_inflatedBuffer.size() > 0)
+			{
+				_hasOutput = true;
+				_heldInput.clear();
 			}
 
 			return _inflatedBuffer;
 		}
 
+		QByteArray finish()
+		{
+			return _memberCount > 0 ? QByteArray() : _heldInput;
+		}
+
 	private:
 		z_stream _inflateStream;
 		QByteArray _inflatedBuffer;
+		QByteArray _heldInput; // The input received before there was any output.
 		bool _streamBad;
+		bool _memberEnded;
+		int _memberCount;
+		bool _hasOutput;
+		bool _trailingGarbage;
 	};
 #endif // PILLOW_ZLIB
 }
@@ -776,8 +821,19 @@ void Pillow::HttpClient::messageContent(const char *data, int length)
 
 void Pillow::HttpClient::messageComplete()
 {
-	delete _contentDecoder;
-	_contentDecoder = 0;
+	if (_contentDecoder)
+	{
+		const QByteArray remaining = _contentDecoder->finish();
+		delete _contentDecoder;
+		_contentDecoder = 0;
+
+		if (!remaining.isEmpty())
+		{
+			Pillow::HttpResponseParser::messageContent(remaining.constData(), remaining.size());
+			emit contentReadyRead();
+			if (!responsePending()) return; // Aborted in the callback.
+		}
+	}
 
 	if (statusCode() == 100)
 	{
-- 
2.43.0


From 5ec4aad45f2152c4e402b9ab5786738ed4a7d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 28/67] fix: request '/' when the URL has no path

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c37f0e0..d7bd026 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -756,6 +756,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/'); // The url had no path.
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From 14c4a20c756c7cd015dc12ddeeb77ecd93a69a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 29/67] fix: put brackets around an IPv6 address in the Host
 header

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d7bd026..d20788d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -748,6 +748,7 @@ void Pillow::HttpClient::sendRequest()
 	if (_hostHeaderValue.isEmpty())
 	{
         _hostHeaderValue = _request.url.encodedHost();
+		if (_hostHeaderValue.contains(':')) _hostHeaderValue.prepend('[').append(']'); // A literal IPv6 address.
 		if (_request.url.port(80) != 80)
 		{
 			_hostHeaderValue.append(':');
-- 
2.43.0


From f3642cf993dfe4049976d2ada98e3d197b4324c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 30/67] fix: refuse a second request made in a callback, and
 let abort() cancel one that waits for the callback to return

---
 pillowcore/HttpClient.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d20788d..f6033b1 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -514,7 +514,7 @@ void Pillow::HttpClient::request(const QByteArray &method, const QUrl &url, cons
 
 void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 {
-	if (_responsePending)
+	if (_responsePending || !_pendingRequest.method.isNull())
 	{
 		qWarning("Pillow::HttpClient::request: cannot send new request while another one is under way. Request pipelining is not supported.");
 		return;
@@ -575,7 +575,11 @@ void Pillow::HttpClient::abort()
 {
 	if (_device) _device->abort();
 
-	if (_responsePending)
+	// A request made in a callback might also be waiting for us to come out of parsing.
+	const bool requestWaiting = !_pendingRequest.method.isNull();
+	_pendingRequest = Pillow::HttpClientRequest();
+
+	if (_responsePending || requestWaiting)
 	{
 		Pillow::HttpResponseParser::pause();
 		_error = AbortedError;
-- 
2.43.0


From 5d1d1453f81f4358ebe3450198f448626639740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 31/67] fix: do not close an idle connection because of content
 consumed before the end of the response

---
 pillowcore/HttpClient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index f6033b1..7250acb 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -677,8 +677,10 @@ void Pillow::HttpClient::device_readyRead()
 	if (!responsePending())
 	{
 		// Not supposed to be receiving data at this point. Just
-		// ignore it and close the connection.
-		_device->close();
+		// ignore it and close the connection. There is no data if we got
+		// called late by consumeContent(), after the end of the response.
+		if (_device->bytesAvailable() > 0)
+			_device->close();
 		return;
 	}
 
-- 
2.43.0


From 30a0c5c27fa95f9b9cac64a9320c4c05273677cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 32/67] fix: go on reading when the read buffer was made
 smaller and there is nothing to consume yet

---
 pillowcore/HttpClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 7250acb..e55aebd 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -745,6 +745,10 @@ void Pillow::HttpClient::device_readyRead()
 	// Or was this the last of what the server had sent?
 	if (responsePending() && _remoteHostClosed)
 		completeOnRemoteHostClosed();
+
+	// Or did a small read buffer make us read only a part of the headers or a chunk size, so that there is nothing to consume? Then go on with what the device still has.
+	if (responsePending() && bufferSize > 0 && _content.isEmpty() && _device->bytesAvailable() > 0)
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
 }
 
 void Pillow::HttpClient::sendRequest()
-- 
2.43.0


From dbf0b3b5f8d04eda12aff87dde19d4c4ec05ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 33/67] fix: let NetworkReply::error() tell the error that was
 signalled

---
 pillowcore/HttpClient.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index e55aebd..dd574dc 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -974,6 +974,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, errorText(error));
 				emit this->error(error);
 			}
 
@@ -982,6 +983,18 @@ namespace Pillow
 			emit finished();
 		}
 
+	private:
+		static QString errorText(QNetworkReply::NetworkError error)
+		{
+			switch (error)
+			{
+			case QNetworkReply::ProtocolUnknownError: return tr("Invalid response");
+			case QNetworkReply::RemoteHostClosedError: return tr("Connection closed");
+			case QNetworkReply::OperationCanceledError: return tr("Operation canceled");
+			default: return tr("Network error");
+			}
+		}
+
 	protected:
 		qint64 readData(char *data, qint64 maxSize)
 		{
-- 
2.43.0


From 99c7417a2a2216e3b36961a8ccdf83035488a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 34/67] fix: keep all the values of a header that comes several
 times in a NetworkReply

---
 pillowcore/HttpClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index dd574dc..ac3478e 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -922,7 +922,11 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				// A header that comes several times is equivalent to a single one listing all the values.
+				if (hasRawHeader(header.first))
+					setRawHeader(header.first, rawHeader(header.first) + ", " + header.second);
+				else
+					setRawHeader(header.first, header.second);
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From 967de08fc6e3a493d9d0fb4a1b296700e0c740d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 35/67] fix: do not let a NetworkReply use the client of a
 deleted manager

---
 pillowcore/HttpClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ac3478e..cea88b8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -8,6 +8,7 @@
 #include <QtNetwork/QNetworkReply>
 #include <QtNetwork/QNetworkCookie>
 #include <QtNetwork/QNetworkCookieJar>
+#include <QtCore/QPointer>
 #include <QtCore/QTimer>
 #include "private/zlib.h"
 
@@ -963,7 +964,7 @@ namespace Pillow
 
 		void client_finished()
 		{
-			disconnect(_client, 0, this, 0);
+			disconnect(_client.data(), 0, this, 0);
 
 			if (_client->error() != Pillow::HttpClient::NoError)
 			{
@@ -1010,7 +1011,7 @@ namespace Pillow
 		}
 
 	private:
-		Pillow::HttpClient *_client;
+		QPointer<Pillow::HttpClient> _client; // Owned by the manager, which may be deleted before its replies.
 		QByteArray _content;
 		int _contentPos;
 	};
-- 
2.43.0


From e6de99125c9e95c91b0d42f7971f72a0a78c2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:32 +0000
Subject: [PATCH 36/67] fix: do not finish a NetworkReply before it is returned
 when the request fails at once

---
 pillowcore/HttpClient.cpp | 46 +++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index cea88b8..84451c0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -884,7 +884,7 @@ namespace Pillow
 
 	public:
 		NetworkReply(Pillow::HttpClient *client, QNetworkAccessManager::Operation op, const QNetworkRequest& request)
-			:_client(client), _contentPos(0)
+			:_client(client), _contentPos(0), _starting(true), _clientError(QNetworkReply::NoError)
 		{
 			connect(client, SIGNAL(headersCompleted()), this, SLOT(client_headersCompleted()));
 			connect(client, SIGNAL(contentReadyRead()), this, SLOT(client_contentReadyRead()));
@@ -898,6 +898,15 @@ namespace Pillow
 		~NetworkReply()
 		{}
 
+		// The request was handed to the client. Before that, a failure is not signalled, as nobody could have
+		// connected to the reply yet.
+		void started()
+		{
+			_starting = false;
+			if (!_client)
+				QMetaObject::invokeMethod(this, "finish", Qt::QueuedConnection);
+		}
+
 	public:
 		void abort()
 		{
@@ -966,24 +975,29 @@ namespace Pillow
 		{
 			disconnect(_client.data(), 0, this, 0);
 
-			if (_client->error() != Pillow::HttpClient::NoError)
+			switch (_client->error())
 			{
-				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
+			case Pillow::HttpClient::NoError: _clientError = QNetworkReply::NoError; break;
+			case Pillow::HttpClient::NetworkError: _clientError = QNetworkReply::UnknownNetworkError; break;
+			case Pillow::HttpClient::ResponseInvalidError: _clientError = QNetworkReply::ProtocolUnknownError; break;
+			case Pillow::HttpClient::RemoteHostClosedError: _clientError = QNetworkReply::RemoteHostClosedError; break;
+			case Pillow::HttpClient::AbortedError: _clientError = QNetworkReply::OperationCanceledError; break;
+			default: _clientError = QNetworkReply::UnknownNetworkError; break;
+			}
 
-				switch (_client->error())
-				{
-				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
-				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; break;
-				case Pillow::HttpClient::ResponseInvalidError: error = QNetworkReply::ProtocolUnknownError; break;
-				case Pillow::HttpClient::RemoteHostClosedError: error = QNetworkReply::RemoteHostClosedError; break;
-				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
-				}
+			_client = 0;
+			if (!_starting)
+				finish();
+		}
 
-				setError(error, errorText(error));
-				emit this->error(error);
+		void finish()
+		{
+			if (_clientError != QNetworkReply::NoError)
+			{
+				setError(_clientError, errorText(_clientError));
+				emit this->error(_clientError);
 			}
 
-			_client = 0;
 			setFinished(true);
 			emit finished();
 		}
@@ -1014,6 +1028,8 @@ namespace Pillow
 		QPointer<Pillow::HttpClient> _client; // Owned by the manager, which may be deleted before its replies.
 		QByteArray _content;
 		int _contentPos;
+		bool _starting;
+		QNetworkReply::NetworkError _clientError;
 	};
 }
 
@@ -1101,6 +1117,8 @@ QNetworkReply *Pillow::NetworkAccessManager::createRequest(QNetworkAccessManager
 		break;
 	}
 
+	reply->started();
+
 	return reply;
 }
 
-- 
2.43.0


From 96ce395fc1baa59ac0b8696448d8edd287f901e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 37/67] fix: do not delete a connection that is still emitting
 its closed() signal

---
 pillowcore/HttpServer.cpp | 22 ++++++++++++++++++----
 pillowcore/HttpServer.h   |  1 +
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 395c2dc..87e6a45 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -1,5 +1,7 @@
 #include "HttpServer.h"
 #include "HttpConnection.h"
+#include <QtCore/QCoreApplication>
+#include <QtCore/QEvent>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
 using namespace Pillow;
@@ -10,7 +12,7 @@ using namespace Pillow;
 
 namespace Pillow
 {
-	class HttpServerPrivate
+	class HttpServerPrivate : public QObject
 	{
 	public:
 		enum { MaximumReserveCount = 25 };
@@ -51,10 +53,17 @@ namespace Pillow
 
 		void putConnection(HttpConnection* connection)
 		{
-			while (reservedConnections.size() >= MaximumReserveCount)
-				delete reservedConnections.takeLast();
-
+			// Connections in excess are not deleted right away: this one, and others, may still be emitting their closed() signal.
 			reservedConnections.append(connection);
+			if (reservedConnections.size() == MaximumReserveCount + 1)
+				QCoreApplication::postEvent(this, new QEvent(QEvent::User));
+		}
+
+	protected:
+		void customEvent(QEvent*)
+		{
+			while (reservedConnections.size() > MaximumReserveCount)
+				delete reservedConnections.takeFirst();
 		}
 	};
 }
@@ -130,6 +139,11 @@ HttpLocalServer::HttpLocalServer(const QString& serverName, QObject *parent /*=
 		qWarning() << QString("HttpLocalServer::HttpLocalServer: could not bind to %1 for listening: %2").arg(serverName).arg(errorString());
 }
 
+HttpLocalServer::~HttpLocalServer()
+{
+	delete d_ptr;
+}
+
 void HttpLocalServer::this_newConnection()
 {
 	QIODevice* device = nextPendingConnection();
diff --git a/pillowcore/HttpServer.h b/pillowcore/HttpServer.h
index 3af7276..3a8ad8a 100644
--- a/pillowcore/HttpServer.h
+++ b/pillowcore/HttpServer.h
@@ -67,6 +67,7 @@ namespace Pillow
 	public:
 		HttpLocalServer(QObject* parent = 0);
 		HttpLocalServer(const QString& serverName, QObject *parent = 0);
+		~HttpLocalServer();
 
 	signals:
 		void requestReady(Pillow::HttpConnection* connection); // There is a request ready to be handled on this connection.
-- 
2.43.0


From 663e8c6c161da32c00b0463d7447bbc7eb4bbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 38/67] fix: the proxy escaped the escapes of request paths
 again

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..852bebc 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -31,7 +31,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (_proxiedUrl.isEmpty()) return false;
 
 	QUrl targetUrl = _proxiedUrl;
+#if QT_VERSION < 0x050000
 	targetUrl.setEncodedPath(request->requestPath());
+#else
+	targetUrl.setPath(QString::fromUtf8(request->requestPath()), QUrl::TolerantMode); // setEncodedPath() would escape the escapes again.
+#endif
 	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
-- 
2.43.0


From b2a92d8afdc006c9da2dc7af6802f50c96678fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 39/67] fix: the proxy lost all but the last of the request
 headers with the same name

---
 pillowcore/HttpHandlerProxy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 852bebc..05b84c6 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -41,7 +41,12 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		if (proxiedRequest.hasRawHeader(header.first)) // setRawHeader() would keep the last value only.
+			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (header.first.toLower() == "cookie" ? "; " : ", ") + header.second);
+		else
+			proxiedRequest.setRawHeader(header.first, header.second);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From 32c528f6a3cb2e98e69458286a08613709f1e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 40/67] fix: the proxy sent the cookies set for one client with
 the requests of others

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 05b84c6..a6b0e99 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -40,6 +40,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
 	QNetworkRequest proxiedRequest(targetUrl);
+
+	// Cookies are a matter between the client and the server: don't keep those set for one client and send them for the others.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
+
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
 		if (proxiedRequest.hasRawHeader(header.first)) // setRawHeader() would keep the last value only.
-- 
2.43.0


From 30b58941c4a1c2a0a8790cc45982325c93f4bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 41/67] fix: a proxied request read the buffers of its client's
 connection when that was gone already

---
 pillowcore/HttpHandlerProxy.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index a6b0e99..7c7fc4a 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -4,6 +4,12 @@
 #include <QtNetwork/QNetworkReply>
 #include <QtNetwork/QNetworkCookieJar>
 
+// The request's data refers to the buffers of the connection, but the proxied request can outlive it (it is sent by another thread).
+static inline QByteArray detached(const QByteArray& data)
+{
+	return QByteArray(data.constData(), data.size());
+}
+
 //
 // Pillow::HttpHandlerProxy
 //
@@ -50,7 +56,7 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		if (proxiedRequest.hasRawHeader(header.first)) // setRawHeader() would keep the last value only.
 			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (header.first.toLower() == "cookie" ? "; " : ", ") + header.second);
 		else
-			proxiedRequest.setRawHeader(header.first, header.second);
+			proxiedRequest.setRawHeader(detached(header.first), detached(header.second));
 	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
@@ -63,11 +69,12 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(detached(request->requestContent()));
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, detached(request->requestMethod()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From a1e4318a514439d5660c02bcc5e7ce010a9bbebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 42/67] fix: the proxy did not send the last chunk of chunked
 responses

---
 pillowcore/HttpHandlerProxy.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7c7fc4a..003ffea 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -159,12 +159,12 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
-		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
-		}
+		// The client request will still be sending content if the content-length was not specified: tell it that this was
+		// the end, with the last chunk or by closing the connection.
+		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent) _request->endContent();
+
+		// Less content came than was announced. All we can do is close the connection.
+		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent) _request->close();
 	}
 	else
 	{
-- 
2.43.0


From 170f33ed8edc2f513b31de16891a0786f3486fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 43/67] fix: the proxy left the client waiting when the proxied
 server failed after its headers

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 003ffea..24c591d 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -173,6 +173,11 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
 			_request->writeResponse(503);
 		}
+		else if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		{
+			// Too late for another response, but don't let the client wait for the rest of this one.
+			_request->close();
+		}
 	}
 }
 
-- 
2.43.0


From 510c31518c58e3a409dcab3f8680dc7249327ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 44/67] fix: the proxy replaced error responses without content
 with 503, and did not end those with content of unknown length

---
 pillowcore/HttpHandlerProxy.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 24c591d..c8fdb08 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -153,9 +153,18 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 	if (!_broken) pump(_proxiedReply->readAll());
 }
 
+// Whether the reply is an error response that was received entirely, as opposed to one that failed to be received.
+static inline bool isErrorResponse(const QNetworkReply* reply)
+{
+	const int error = reply->error();
+	return reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() >= 400 &&
+		((error > QNetworkReply::UnknownProxyError && error <= QNetworkReply::UnknownContentError && error != QNetworkReply::ContentReSendError) ||
+		 error == QNetworkReply::ProtocolInvalidOperationError || error > QNetworkReply::ProtocolFailure);
+}
+
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (_proxiedReply->error() == QNetworkReply::NoError || isErrorResponse(_proxiedReply))
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-- 
2.43.0


From 5b4c75c709222a7501326eb17f1846ea5cd6d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 45/67] fix: the proxy never answered HEAD requests whose
 response has a content-length

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index c8fdb08..42290e3 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -66,6 +66,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnection *request, QNetworkRequest proxiedRequest)
 {
+	// A HEAD request sent as a custom request would wait for the content of the response.
+	if (request->requestMethod() == "HEAD") return _networkAccessManager->head(proxiedRequest);
+
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-- 
2.43.0


From 3ced88c554d2a8369eeed21ac5bfd84e9f5f67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 46/67] fix: the proxy sent several Set-Cookie headers as a
 broken one

---
 pillowcore/HttpHandlerProxy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 42290e3..c8e1f5d 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -141,7 +141,11 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		// QNetworkReply joins the values of headers with the same name. Those of Set-Cookie can't be, it separates them with line feeds.
+		foreach (const QByteArray& value, headerList.at(i).second.split('\n'))
+			headers << Pillow::HttpHeader(headerList.at(i).first, value);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From e189520b5e4be5b3674d998696ecfdbea922bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 47/67] fix: the proxy closed the connection without sending
 304 responses that have a content-length

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index c8e1f5d..aabdb65 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -142,6 +142,9 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
 	{
+		// The content-length of a 304 response is the one of the content it does not have. Don't promise it to the client.
+		if (statusCode == 304 && _request->requestMethod() != "HEAD" && headerList.at(i).first.toLower() == "content-length") continue;
+
 		// QNetworkReply joins the values of headers with the same name. Those of Set-Cookie can't be, it separates them with line feeds.
 		foreach (const QByteArray& value, headerList.at(i).second.split('\n'))
 			headers << Pillow::HttpHeader(headerList.at(i).first, value);
-- 
2.43.0


From 0eb293318174a0129b1abcb3a293eb20d6e17981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 48/67] fix: the proxy sent uncompressed content with the
 headers of the compressed one

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index aabdb65..c32aadd 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -59,6 +59,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 			proxiedRequest.setRawHeader(detached(header.first), detached(header.second));
 	}
 
+	// Without this, the network access manager asks for compressed content and uncompresses it, but it leaves the response's headers as they were.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding")) proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From dba8b9e921c0e724188e17c12e0bf36a71efa965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 49/67] fix: scripts saw header values and the content with
 percent sequences decoded

---
 pillowcore/HttpHandlerQtScript.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..5257c96 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -12,7 +12,7 @@ static QScriptValue toScriptValue(QScriptEngine *engine, const Pillow::HttpHeade
 	QScriptValue result = engine->newObject();
 
 	for (int i = 0, iE = headers.size(); i < iE; ++i)
-		result.setProperty(QString::fromUtf8(headers.at(i).first), QUrl::fromPercentEncoding(headers.at(i).second));
+		result.setProperty(QString::fromUtf8(headers.at(i).first), QString::fromUtf8(headers.at(i).second));
 
 	return result;
 }
@@ -88,7 +88,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestPath", QUrl::fromPercentEncoding(connection->requestPath()));
 	requestObject.setProperty("requestQueryString", QUrl::fromPercentEncoding(connection->requestQueryString()));
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
-	requestObject.setProperty("requestContent", QUrl::fromPercentEncoding(connection->requestContent()));
+	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent()));
 
 	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
 	QScriptValue queryParamsObject = engine->newObject();
-- 
2.43.0


From 615f7d91417e516334b1d7e1ef50623c27c9c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 50/67] fix: scripts saw query parameters only partly decoded,
 or those of another URL

---
 pillowcore/HttpHandlerQtScript.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 5257c96..ca5b827 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -3,6 +3,9 @@
 #include <QtScript/QScriptEngine>
 #include <QtScript/QScriptValueIterator>
 #include <QtCore/QUrl>
+#if QT_VERSION >= QT_VERSION_CHECK(5, 0, 0)
+#include <QtCore/QUrlQuery>
+#endif
 #include <QFile>
 #include <QFileInfo>
 using namespace Pillow;
@@ -90,7 +93,12 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
 	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent()));
 
-	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
+#if QT_VERSION >= QT_VERSION_CHECK(5, 0, 0)
+	QList<QPair<QString, QString> > queryParams = QUrlQuery(QString::fromUtf8(connection->requestQueryString())).queryItems(QUrl::FullyDecoded);
+#else
+	QUrl queryUrl; queryUrl.setEncodedQuery(connection->requestQueryString());
+	QList<QPair<QString, QString> > queryParams = queryUrl.queryItems();
+#endif
 	QScriptValue queryParamsObject = engine->newObject();
 	for (int i = 0, iE = queryParams.size(); i < iE; ++i)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
-- 
2.43.0


From 44e8919a786d7352eaf34dd142bdbf21e5279ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 51/67] fix: exceptions that are not Error objects went
 unnoticed when a script handled a request

---
 pillowcore/HttpHandlerQtScript.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index ca5b827..86303fe 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -104,9 +104,10 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
 	requestObject.setProperty("requestQueryParams", queryParamsObject);
 
+	engine->clearExceptions(); // An exception left over from elsewhere is not one of this request.
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 
-	if (result.isError())
+	if (engine->hasUncaughtException() || result.isError())
 	{
 		if (connection->state() == HttpConnection::SendingHeaders)
 		{
-- 
2.43.0


From 57449c29dd3773b4597369bf1349db13977f7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 52/67] fix: loading a script failed for values of type Error,
 not for exceptions of other types

---
 pillowcore/HttpHandlerQtScript.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 86303fe..740a1e4 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -174,10 +174,12 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		context->setActivationObject(_scriptObject);
 		context->setThisObject(_scriptObject);
 		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
+		const bool failed = engine->hasUncaughtException();
 		engine->popContext();
 
-		if (result.isError())
+		if (failed)
 		{
+			engine->clearExceptions();
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(objectToString(result)));
 			return true;
 		}
-- 
2.43.0


From 6915993125709f83334b6815c4d825aafe7a4371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 53/67] fix: a script handler kept the old function after its
 file or function name changed

---
 pillowcore/HttpHandlerQtScript.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 740a1e4..37c69ab 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -138,6 +138,7 @@ void HttpHandlerQtScriptFile::setFileName(const QString &fileName)
 {
 	if (_fileName == fileName) return;
 	_fileName = fileName;
+	_lastModified = QDateTime(); // Load that file for the next request.
 
 	if (!QFile::exists(fileName))
 		qWarning() << "HttpHandlerQtScriptFile::setFileName: file" << fileName << "does not exist. This handler won't be able to handle requests.";
@@ -147,6 +148,7 @@ void HttpHandlerQtScriptFile::setFunctionName(const QString &functionName)
 {
 	if (_functionName == functionName) return;
 	_functionName = functionName;
+	_lastModified = QDateTime(); // Get that function for the next request.
 }
 
 void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
-- 
2.43.0


From d219154f4242e72d881bf95dd8e58d84423648d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 54/67] fix: a script handler did not reload a file that was
 replaced by an older one

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 37c69ab..acd20f5 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -159,7 +159,7 @@ void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
 
 bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 {
-	if (!_lastModified.isValid() || (_autoReload && QFileInfo(_fileName).lastModified() > _lastModified))
+	if (!_lastModified.isValid() || (_autoReload && QFileInfo(_fileName).lastModified() != _lastModified))
 	{
 		// Time to (re)load the script.
 		qDebug() << "HttpHandlerQtScriptFile::handleRequest: (re)loading" << _fileName;
-- 
2.43.0


From 91075b6b58f09505c26972fa4886f3b4437493fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:09 +0000
Subject: [PATCH 55/67] fix: scripts saw content only up to its first NUL byte

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index acd20f5..472ba2e 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -91,7 +91,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestPath", QUrl::fromPercentEncoding(connection->requestPath()));
 	requestObject.setProperty("requestQueryString", QUrl::fromPercentEncoding(connection->requestQueryString()));
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
-	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent()));
+	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent().constData(), connection->requestContent().size()));
 
 #if QT_VERSION >= QT_VERSION_CHECK(5, 0, 0)
 	QList<QPair<QString, QString> > queryParams = QUrlQuery(QString::fromUtf8(connection->requestQueryString())).queryItems(QUrl::FullyDecoded);
-- 
2.43.0


From d11ba6ad8176a1f95794f7bd902ea34f49987ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 56/67] fix: the proxy kept a repeated header's name in memory
 of a connection that goes away

---
 pillowcore/HttpHandlerProxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index c32aadd..b52ac43 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -54,7 +54,7 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
 		if (proxiedRequest.hasRawHeader(header.first)) // setRawHeader() would keep the last value only.
-			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (header.first.toLower() == "cookie" ? "; " : ", ") + header.second);
+			proxiedRequest.setRawHeader(detached(header.first), proxiedRequest.rawHeader(header.first) + (header.first.toLower() == "cookie" ? "; " : ", ") + header.second);
 		else
 			proxiedRequest.setRawHeader(detached(header.first), detached(header.second));
 	}
-- 
2.43.0


From f27b784bdc50c2b3caddc56ac75d2daaa9228b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 57/67] fix: never send content with 204 and 304 responses

---
 pillowcore/HttpConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index ec1d96f..c68a374 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -334,7 +334,10 @@ inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 		_responseConnectionKeepAlive = false;
 	}
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
+	// Responses with these statuses never have content (see RFC 2616, section 4.3): the client would take it for the next response.
+	const bool statusWithoutContent = _responseStatusCode == 204 || _responseStatusCode == 304;
+
+	if (_responseContentLength == 0 || statusWithoutContent || _requestMethod == headToken)
 	{
 		transitionToCompleted();
 		return false; // From here on, the connection may already be serving its next request.
-- 
2.43.0


From 993a35a5060f73f6bdae4e9466095c22154e2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 58/67] fix: refuse requests with a transfer coding instead of
 taking their content for the next request

---
 pillowcore/HttpConnection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index c68a374..b681601 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -94,6 +94,7 @@ namespace Pillow
 		Pillow::HttpHeaderCollection _requestHeaders;
 		int _requestContentLength; int _requestContentLengthHeaderIndex;
 		bool _requestHttp11;
+		bool _requestTransferCoded;
 		Pillow::HttpParamCollection _requestParams;
 
 		// Response fields.
@@ -214,6 +215,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingHeaders()
 	_requestContentLength = 0;
 	_requestContentLengthHeaderIndex = -1;
 	_requestHttp11 = false;
+	_requestTransferCoded = false;
 }
 
 inline void Pillow::HttpConnectionPrivate::setupRequestHeaders()
@@ -243,6 +245,10 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingContent()
 	if (_requestContentLengthHeaderIndex >= 0)
 		_requestContentLength = _requestHeaders.at(_requestContentLengthHeaderIndex).second.toInt(&contentLengthParseOk);
 
+	// Exit early if the content has a transfer coding: none is supported, and the coded content must not be taken for the next request.
+	if (_requestTransferCoded)
+		return writeRequestErrorResponse(501); // Not implemented.
+
 	// Exit early if the client sent an incorrect or unacceptable content-length.
 	if (_requestContentLength < 0)
 		return writeRequestErrorResponse(400); // Invalid request: negative content length does not make sense.
@@ -451,9 +457,11 @@ inline void Pillow::HttpConnectionPrivate::parser_http_field(void *data, const c
 {
 	Pillow::HttpConnectionPrivate* request = reinterpret_cast<Pillow::HttpConnectionPrivate*>(data);
 
-	// Find the one request header that interest us, fast.
+	// Find the request headers that interest us, fast.
 	if (flen == 14 && asciiEqualsCaseInsensitive(field, 14, "content-length", 14))
 		request->_requestContentLengthHeaderIndex = request->_requestHeadersRef.size();
+	else if (flen == 17 && asciiEqualsCaseInsensitive(field, 17, "transfer-encoding", 17) && !asciiEqualsCaseInsensitive(value, static_cast<int>(vlen), "identity", 8))
+		request->_requestTransferCoded = true;
 
 	const char* begin = request->_requestBuffer.constData();
 	request->_requestHeadersRef.append(HttpHeaderRef(field - begin, static_cast<int>(flen), value - begin, static_cast<int>(vlen)));
-- 
2.43.0


From d3c37292f9d5ad71f0606700f0f7c2f73e3a2ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 59/67] fix: refuse requests with several content-lengths that
 differ

---
 pillowcore/HttpConnection.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index b681601..dda4e67 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -94,7 +94,7 @@ namespace Pillow
 		Pillow::HttpHeaderCollection _requestHeaders;
 		int _requestContentLength; int _requestContentLengthHeaderIndex;
 		bool _requestHttp11;
-		bool _requestTransferCoded;
+		bool _requestTransferCoded, _requestContentLengthAmbiguous;
 		Pillow::HttpParamCollection _requestParams;
 
 		// Response fields.
@@ -215,7 +215,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingHeaders()
 	_requestContentLength = 0;
 	_requestContentLengthHeaderIndex = -1;
 	_requestHttp11 = false;
-	_requestTransferCoded = false;
+	_requestTransferCoded = _requestContentLengthAmbiguous = false;
 }
 
 inline void Pillow::HttpConnectionPrivate::setupRequestHeaders()
@@ -250,7 +250,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingContent()
 		return writeRequestErrorResponse(501); // Not implemented.
 
 	// Exit early if the client sent an incorrect or unacceptable content-length.
-	if (_requestContentLength < 0)
+	if (_requestContentLengthAmbiguous)
+		return writeRequestErrorResponse(400); // Invalid request: where it ends depends on which content-length is believed.
+	else if (_requestContentLength < 0)
 		return writeRequestErrorResponse(400); // Invalid request: negative content length does not make sense.
 	else if (_requestContentLength > Pillow::HttpConnection::MaximumRequestContentLength || !contentLengthParseOk)
 		return writeRequestErrorResponse(413); // Request entity too large.
@@ -459,7 +461,15 @@ inline void Pillow::HttpConnectionPrivate::parser_http_field(void *data, const c
 
 	// Find the request headers that interest us, fast.
 	if (flen == 14 && asciiEqualsCaseInsensitive(field, 14, "content-length", 14))
+	{
+		if (request->_requestContentLengthHeaderIndex >= 0)
+		{
+			const HttpHeaderRef& previous = request->_requestHeadersRef[request->_requestContentLengthHeaderIndex];
+			if (previous.valueLength != static_cast<int>(vlen) || memcmp(request->_requestBuffer.constData() + previous.valuePos, value, vlen) != 0)
+				request->_requestContentLengthAmbiguous = true;
+		}
 		request->_requestContentLengthHeaderIndex = request->_requestHeadersRef.size();
+	}
 	else if (flen == 17 && asciiEqualsCaseInsensitive(field, 17, "transfer-encoding", 17) && !asciiEqualsCaseInsensitive(value, static_cast<int>(vlen), "identity", 8))
 		request->_requestTransferCoded = true;
 
-- 
2.43.0


From 28cea40913fac32133e54cf16892ea11151ae4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 60/67] fix: find close and keep-alive among several connection
 options

---
 pillowcore/HttpConnection.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index dda4e67..3185a52 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -477,6 +477,19 @@ inline void Pillow::HttpConnectionPrivate::parser_http_field(void *data, const c
 	request->_requestHeadersRef.append(HttpHeaderRef(field - begin, static_cast<int>(flen), value - begin, static_cast<int>(vlen)));
 }
 
+// Returns whether an option is among those listed by the Connection headers.
+static bool hasConnectionOption(const Pillow::HttpHeaderCollection& headers, const Pillow::LowerCaseToken& option)
+{
+	for (const Pillow::HttpHeader* header = headers.constBegin(), *headerE = headers.constEnd(); header != headerE; ++header)
+	{
+		if (!asciiEqualsCaseInsensitive(header->first, connectionToken)) continue;
+		if (asciiEqualsCaseInsensitive(header->second, option)) return true;
+		foreach (const QByteArray& listedOption, header->second.split(','))
+			if (asciiEqualsCaseInsensitive(listedOption.trimmed(), option)) return true;
+	}
+	return false;
+}
+
 inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const HttpHeaderCollection &headers, const QByteArray &content)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
@@ -566,12 +579,12 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (_requestHttp11)
 	{
 		// Keep-Alive by default, unless "close" is specified.
-		clientWantsKeepAlive = !asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(connectionToken), closeToken);
+		clientWantsKeepAlive = !hasConnectionOption(_requestHeaders, closeToken);
 	}
 	else
 	{
 		// Close by default, unless "keep-alive" is specified.
-		clientWantsKeepAlive = asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(connectionToken), keepAliveToken);
+		clientWantsKeepAlive = hasConnectionOption(_requestHeaders, keepAliveToken);
 	}
 
 	if (clientWantsKeepAlive)
@@ -582,7 +595,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		if (serverWantsKeepAlive && connectionHeader)
 		{
 			// Server is Keep-Alive by default, unless "close" is specified.
-			serverWantsKeepAlive = !asciiEqualsCaseInsensitive(connectionHeader->second, closeToken);
+			serverWantsKeepAlive = !hasConnectionOption(headers, closeToken);
 		}
 
 		_responseConnectionKeepAlive = serverWantsKeepAlive;
-- 
2.43.0


From 47d133c51a541cfb403536ed4016bc058b574b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:27 +0000
Subject: [PATCH 61/67] fix: the client took interim responses other than 100
 for the real one

---
 pillowcore/HttpClient.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 84451c0..c2ddc3d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -395,6 +395,12 @@ inline void Pillow::HttpResponseParser::pushHeader()
 // Pillow::HttpClient
 //
 
+// Whether a response (100 Continue, 102 Processing...) only comes before the real one. After 101 Switching Protocols there is no other.
+static inline bool isInterimStatus(int statusCode)
+{
+	return statusCode / 100 == 1 && statusCode != 101;
+}
+
 Pillow::HttpClient::HttpClient(QObject *parent)
 	: QObject(parent), _responsePending(false), _remoteHostClosed(false), _deviceFailing(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
@@ -789,7 +795,7 @@ void Pillow::HttpClient::messageBegin()
 void Pillow::HttpClient::headersComplete()
 {
 	Pillow::HttpResponseParser::headersComplete();
-	if (statusCode() == 100)
+	if (isInterimStatus(statusCode()))
 		return;
 
 	emit headersCompleted();
@@ -848,9 +854,9 @@ void Pillow::HttpClient::messageComplete()
 		}
 	}
 
-	if (statusCode() == 100)
+	if (isInterimStatus(statusCode()))
 	{
-		// Completely hide and ignore the 100 response we just received.
+		// Completely hide and ignore the interim response we just received.
 		clear();
 	}
 	else
-- 
2.43.0


From b986aeb172d62e8b68830fa65566e12fddbbcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 62/67] fix: following a 303 redirection repeated the request
 instead of getting its result

---
 pillowcore/HttpClient.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c2ddc3d..2e53acb 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -605,6 +605,12 @@ void Pillow::HttpClient::followRedirection()
 
 	Pillow::HttpClientRequest newRequest = _request;
 	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation())); // The location can be relative.
+	if (statusCode() == 303 && _request.method.toUpper() != Pillow::HttpClientTokens::headMethodToken)
+	{
+		// The request was processed, its result is to be retrieved with a GET request (see RFC 2616, section 10.3.4).
+		newRequest.method = Pillow::HttpClientTokens::getMethodToken;
+		newRequest.data = QByteArray();
+	}
 	request(newRequest);
 }
 
-- 
2.43.0


From 07a2403bab35bb25c44735a66de0957e8b7e14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:51 +0000
Subject: [PATCH 63/67] fix: response lengths that do not fit 64 bits could be
 taken for other ones

---
 pillowcore/parser/http_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..3c76811 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1463,7 +1463,7 @@ size_t http_parser_execute (http_parser *parser,
 			t += ch - '0';
 
 			/* Overflow? */
-			if (t < parser->content_length || t == ULLONG_MAX) {
+			if (parser->content_length > (ULLONG_MAX - 10) / 10) {
 			  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 			  goto error;
 			}
@@ -1736,7 +1736,7 @@ size_t http_parser_execute (http_parser *parser,
 		t += unhex_val;
 
 		/* Overflow? */
-		if (t < parser->content_length || t == ULLONG_MAX) {
+		if (parser->content_length > (ULLONG_MAX - 16) / 16) {
 		  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 		  goto error;
 		}
-- 
2.43.0


From 76bbe38e42920dc0823b6b773a5af46dbb58c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:51 +0000
Subject: [PATCH 64/67] fix: a response's content-length with a space inside
 was taken for the number without it

---
 pillowcore/parser/http_parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 3c76811..97636ef 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -317,6 +317,7 @@ enum header_states
 
   , h_connection
   , h_content_length
+  , h_content_length_ws
   , h_transfer_encoding
   , h_upgrade
 
@@ -1451,7 +1452,10 @@ size_t http_parser_execute (http_parser *parser,
 		  {
 			uint64_t t;
 
-			if (ch == ' ') break;
+			if (ch == ' ') {
+			  parser->header_state = h_content_length_ws;
+			  break;
+			}
 
 			if (!IS_NUM(ch)) {
 			  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
@@ -1472,6 +1476,12 @@ size_t http_parser_execute (http_parser *parser,
 			break;
 		  }
 
+		  case h_content_length_ws:
+			/* Nothing but spaces may follow the number. */
+			if (ch == ' ') break;
+			SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
+			goto error;
+
 		  /* Transfer-Encoding: chunked */
 		  case h_matching_transfer_encoding_chunked:
 			parser->index++;
-- 
2.43.0


From 81cb19102501a22cbedbfde20a3ae8d69f3dcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:51 +0000
Subject: [PATCH 65/67] fix: responses with several content-lengths that differ
 were accepted

---
 pillowcore/HttpClient.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 2e53acb..2015a11 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -350,10 +350,23 @@ int Pillow::HttpResponseParser::parser_on_header_value(http_parser *parser, cons
 	return 0;
 }
 
+static bool hasDifferingContentLengths(const Pillow::HttpHeaderCollection& headers)
+{
+	const Pillow::HttpHeader* first = 0;
+	for (const Pillow::HttpHeader* header = headers.constBegin(), *end = headers.constEnd(); header < end; ++header)
+	{
+		if (!Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header->first, Pillow::LowerCaseToken("content-length"))) continue;
+		if (first && header->second != first->second) return true;
+		first = header;
+	}
+	return false;
+}
+
 int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
+	if (!(parser->flags & F_CHUNKED) && hasDifferingContentLengths(self->_headers)) return -1; // Neither length can be trusted (see RFC 7230, section 3.3.3).
 	self->headersComplete();
 
 	// These responses never have a body, even if they have a Content-Length (see RFC 2616, section 4.4). 1 tells the parser so.
-- 
2.43.0


From 10097985582b42091b91c2fb0fc916679d4ca92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:51 +0000
Subject: [PATCH 66/67] fix: a close listed with other options in a response's
 Connection header was not noticed

---
 pillowcore/HttpClient.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 2015a11..b5c4f2c 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -362,11 +362,28 @@ static bool hasDifferingContentLengths(const Pillow::HttpHeaderCollection& heade
 	return false;
 }
 
+static int listedConnectionOptions(const Pillow::HttpHeaderCollection& headers)
+{
+	int flags = 0;
+	for (const Pillow::HttpHeader* header = headers.constBegin(), *end = headers.constEnd(); header < end; ++header)
+	{
+		if (!Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header->first, Pillow::LowerCaseToken("connection"))) continue;
+		foreach (const QByteArray& listedOption, header->second.split(','))
+		{
+			const QByteArray option = listedOption.trimmed();
+			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(option, Pillow::LowerCaseToken("close"))) flags |= F_CONNECTION_CLOSE;
+			else if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(option, Pillow::LowerCaseToken("keep-alive"))) flags |= F_CONNECTION_KEEP_ALIVE;
+		}
+	}
+	return flags;
+}
+
 int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
 	if (!(parser->flags & F_CHUNKED) && hasDifferingContentLengths(self->_headers)) return -1; // Neither length can be trusted (see RFC 7230, section 3.3.3).
+	parser->flags |= listedConnectionOptions(self->_headers); // The parser only recognizes an option that is alone in its header.
 	self->headersComplete();
 
 	// These responses never have a body, even if they have a Content-Length (see RFC 2616, section 4.4). 1 tells the parser so.
-- 
2.43.0


From b23ab412f0c04482f9b81abe30ca40a76fa6fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:51 +0000
Subject: [PATCH 67/67] fix: HTTP/1.0 clients were sent interim responses

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3185a52..a86c357 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -259,7 +259,8 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingContent()
 
 	if (_requestContentLength > 0)
 	{
-		if (asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(expectToken), hundredDashContinueToken))
+		ByteArray httpVersion; setFromRawData(httpVersion, _requestBuffer.constData(), static_cast<int>(_parser.http_version_start), static_cast<int>(_parser.http_version_len));
+		if (httpVersion == httpSlash11Token && asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(expectToken), hundredDashContinueToken)) // HTTP/1.0 clients know no interim responses.
 			_outputDevice->write("HTTP/1.1 100 Continue\r\n\r\n");// The client politely wanted to know if it could proceed with his payload. All clear!
 
 		// Resize the request buffer right away to avoid too many reallocs later.
-- 
2.43.0

