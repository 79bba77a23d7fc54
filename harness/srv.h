// A server under exploration on a real socket, and its clients (plain TCP, local sockets, TLS).
#ifndef SRV_H
#define SRV_H
#include "net.h"
#include <memory>
#include <set>
#include "HttpServer.h"
#include "HttpsServer.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
std::vector<mc::Suite> suitesC10(mc::Tier); std::vector<mc::Suite> suitesC25(mc::Tier);
using std::string;
typedef Pillow::HttpConnection Conn;

inline string scratchDir() { const char* s = getenv("MC_SCRATCH"); return s ? s : "/tmp"; }
inline QByteArray fileBytes(const string& name) { QFile f(QString::fromUtf8((string(HARNESS_DATA) + "/" + name).c_str())); f.open(QIODevice::ReadOnly); return f.readAll(); }
enum Kind { Tcp, Local, Tls };
static const char* const kindNames[] = { "TCP", "local", "TLS" };

struct Site // The server, and what it delivers.
{
	struct Ask { Conn* conn; int client, k; string body; };
	Kind kind; std::unique_ptr<QObject> server; string ip, path; int port; std::vector<Ask> pending; std::map<int, std::vector<int> > delivered; std::map<Conn*, int> owner; std::map<Conn*, bool> watched; string problem; int closes; bool answerAtOnce;
	std::function<void(Ask&)> onAsk; std::function<void(Conn*)> onClosed; std::function<void(const Seen&)> onSeen;
	explicit Site(Kind kind) : kind(kind), port(0), closes(0), answerAtOnce(false)
	{
		char b[64]; const int n = nextLoopback(); snprintf(b, sizeof b, "127.%d.%d.%d", 64 + (getpid() & 63), n >> 8, 1 + (n & 0xff) % 254); ip = b;
		if (kind == Local) { path = scratchDir() + "/s" + ref::num(getpid()); Pillow::HttpLocalServer* s = new Pillow::HttpLocalServer(QString::fromStdString(path)); server.reset(s); QObject::connect(s, &Pillow::HttpLocalServer::requestReady, [this](Conn* c) { ready(c); }); if (!s->isListening()) { fprintf(stderr, "cannot listen on %s\n", path.c_str()); _exit(77); } return; }
		Pillow::HttpServer* s;
		if (kind == Tcp) s = new Pillow::HttpServer(QHostAddress(ip.c_str()), 0);
		else { Pillow::HttpsServer* t = new Pillow::HttpsServer(certificate(0), key(0), QHostAddress(ip.c_str()), 0); s = t; }
		server.reset(s); port = s->serverPort(); if (!s->isListening()) { fprintf(stderr, "cannot listen\n"); _exit(77); }
		QObject::connect(s, &Pillow::HttpServer::requestReady, [this](Conn* c) { ready(c); });
	}
	~Site() { if (server) QObject::disconnect(server.get(), 0, 0, 0); for (auto& w : watched) QObject::disconnect(w.first, 0, 0, 0), (void)w; watched.clear(); server.reset(); spin(1); }
	static QSslCertificate certificate(int i) { static std::map<int, QSslCertificate> all; if (!all.count(i)) all[i] = QSslCertificate(fileBytes("server" + ref::num(i) + ".crt")); return all[i]; }
	static QSslKey key(int i) { static std::map<int, QSslKey> all; if (!all.count(i)) all[i] = QSslKey(fileBytes("server" + ref::num(i) + ".key"), QSsl::Ec); return all[i]; }
	void watch(Conn* c)
	{
		if (watched.count(c)) return; watched[c] = true;
		QObject::connect(c, &Conn::closed, [this](Conn* x) { ++closes; for (size_t i = 0; i < pending.size();) if (pending[i].conn == x) pending.erase(pending.begin() + i); else ++i; owner.erase(x); if (onClosed) onClosed(x); });
		QObject::connect(c, &QObject::destroyed, [this, c]() { watched.erase(c); owner.erase(c); for (size_t i = 0; i < pending.size();) if (pending[i].conn == c) pending.erase(pending.begin() + i); else ++i; });
	}
	void ready(Conn* c)
	{
		watch(c); const Seen s = look(c, false); if (onSeen) onSeen(s); int client = -1, k = -1;
		if (sscanf(s.path.c_str(), "/c%d/r%d", &client, &k) != 2) { problem = "a request nobody sent: " + s.text(); return; }
		if (owner.count(c) && owner[c] != client) problem = "requests of clients " + ref::num(owner[c]) + " and " + ref::num(client) + " on one connection object";
		owner[c] = client; std::vector<int>& d = delivered[client]; if ((int)d.size() != k) problem = "request " + ref::num(k) + " of client " + ref::num(client) + " delivered after " + ref::num(d.size()) + " others";
		d.push_back(k); for (size_t i = 0; i < pending.size(); ++i) if (pending[i].conn == c) problem = "a request was delivered before the previous one was answered";
		Ask a; a.conn = c; a.client = client; a.k = k; a.body = s.content; pending.push_back(a);
		if (onAsk) { Ask copy = a; onAsk(copy); } else if (answerAtOnce) answer(pending.size() - 1);
	}
	static string text(int client, int k, const string& body) { return "reply to " + ref::num(client) + "/" + ref::num(k) + " [" + body + "]"; }
	void answer(size_t i) { const Ask a = pending[i]; pending.erase(pending.begin() + i); a.conn->writeResponse(200, Pillow::HttpHeaderCollection(), qb(text(a.client, a.k, a.body))); }
	Peer* connectPeer()
	{
		if (kind != Local) return connectTo(ip, port);
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", path.c_str());
		fcntl(fd, F_SETFL, O_NONBLOCK); if (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) { ::close(fd); return 0; }
		return new Peer(fd);
	}
};

inline string requestBytes(int client, int k, bool close = false, int bodySize = -1)
{
	const string path = "/c" + ref::num(client) + "/r" + ref::num(k), body = bodySize >= 0 ? ref::pattern(bodySize, client * 7 + k) : k % 2 ? "body " + ref::num(client * 100 + k) : "";
	string s = (body.empty() ? "GET " : "POST ") + path + " HTTP/1.1\r\nHost: h\r\n" + (close ? "Connection: close\r\n" : ""); if (!body.empty()) s += "Content-Length: " + ref::num(body.size()) + "\r\n"; return s + "\r\n" + body;
}
inline string bodyOf(int client, int k) { return k % 2 ? "body " + ref::num(client * 100 + k) : ""; }

// Takes complete responses off the front of in; "" or what is wrong. texts: their contents.
inline string takeReplies(string& in, std::vector<string>* texts)
{
	size_t pos = 0; string problem;
	while (pos < in.size())
	{
		ref::Response r; size_t next = 0; if (!ref::parseResponse(in, pos, false, &r, &next)) break;
		if (!r.problem.empty() || r.status != 200) { problem = "not a good response: " + r.problem + " " + mc::show(in.substr(pos), 300); break; }
		if (!r.complete) break;
		texts->push_back(r.body); pos = next;
	}
	in.erase(0, pos); return problem;
}
#endif
