#ifndef CLIENT_H
#define CLIENT_H
#include "net.h"
#include "resp.h"
#include <memory>
#include <zlib.h>
#include "HttpClient.h"
typedef Pillow::HttpClient Client;
std::vector<mc::Suite> suitesC17(mc::Tier); std::vector<mc::Suite> suitesC18(mc::Tier); std::vector<mc::Suite> suitesC19(mc::Tier); std::vector<mc::Suite> suitesC20(mc::Tier); std::vector<mc::Suite> suitesC21(mc::Tier);

inline const char* errorName(int e) { static const char* n[] = { "NoError", "NetworkError", "ResponseInvalidError", "RemoteHostClosedError", "AbortedError" }; return e >= 0 && e < 5 ? n[e] : "?"; }
inline QUrl url(const std::string& s) { return QUrl::fromEncoded(qb(s)); }

inline std::string gz(const std::string& s, int level = 6, int window = 31, const char* name = 0)
{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, window, 8, Z_DEFAULT_STRATEGY);
	gz_header h; memset(&h, 0, sizeof h); if (name) { h.name = (Bytef*)name; h.comment = (Bytef*)"a comment"; h.extra = (Bytef*)"extra"; h.extra_len = 5; h.hcrc = 1; deflateSetHeader(&z, &h); }
	std::string o(deflateBound(&z, s.size()) + 300, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
	deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}

struct Shot // What the client shows when finished() is emitted.
{
	int error, status; ref::Headers headers; std::string content; bool pending; bool redirected; std::string location;
};

struct ClientRig
{
	std::unique_ptr<Client> c; std::string events; std::vector<Shot> shots; std::function<void()> onHeaders, onContent, onFinished; std::string taken; bool consume;
	ClientRig() : c(new Client), consume(false)
	{
		QObject::connect(c.get(), &Client::headersCompleted, [this]() { events += 'H'; if (onHeaders) onHeaders(); });
		QObject::connect(c.get(), &Client::contentReadyRead, [this]() { if (events.empty() || *events.rbegin() != 'c') events += 'c'; if (consume) taken += sb(c->consumeContent()); if (onContent) onContent(); });
		QObject::connect(c.get(), &Client::finished, [this]() { events += 'F'; shots.push_back(look()); if (onFinished) onFinished(); });
	}
	Shot look() const
	{
		Shot s; s.error = c->error(); s.status = c->statusCode(); for (int i = 0; i < c->headers().size(); ++i) s.headers.push_back(ref::Header(sb(c->headers().at(i).first), sb(c->headers().at(i).second)));
		s.content = sb(c->content()); s.pending = c->responsePending(); s.redirected = c->redirected(); s.location = sb(c->redirectionLocation()); return s;
	}
};

inline std::string hdrText(const ref::Headers& h) { std::string s; for (size_t i = 0; i < h.size(); ++i) s += "[" + h[i].first + "=" + h[i].second + "]"; return mc::show(s, 400); }

// A complete request from the front of p's input, which is removed from it.
inline bool takeRequest(Peer& p, ref::Request* r, std::string* raw = 0)
{
	p.read(); size_t next = 0; ref::Request q;
	if (ref::parseHead(p.in, 0, &q, &next) != ref::HeadOk) return false;
	const size_t n = strtoul(ref::value(q.headers, "content-length").c_str(), 0, 10);
	if (p.in.size() < next + n) return false;
	q.body = p.in.substr(next, n); if (raw) *raw = p.in.substr(0, next + n);
	p.in.erase(0, next + n); *r = q; return true;
}
#endif
