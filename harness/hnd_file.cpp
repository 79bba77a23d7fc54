#include <dirent.h>
// C11 (file containment) and C12 (file transfers).
#include "handlers.h"
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
using namespace mc;
typedef Pillow::HttpConnection Conn;

//
// The scratch tree of this process.
//
static std::string base; // .../<pid>

static void put(const std::string& path, const std::string& content) { int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { if (write(fd, content.data(), content.size())) {} close(fd); } }
static std::string get(const std::string& path) { std::string s; char b[65536]; int fd = open(path.c_str(), O_RDONLY | O_NONBLOCK); if (fd < 0) return s; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }

static void makeBase()
{
	if (!base.empty()) return;
	base = scratchDir() + "/" + ref::num(getpid());
	mkdir(base.c_str(), 0755);
}

static void makeTree()
{
	static bool made = false; if (made) return; made = true;
	makeBase();
	const std::string t = base + "/tree"; auto dir = [&](const char* n, int mode = 0755) { mkdir((t + n).c_str(), mode); };
	dir(""); dir("/public"); dir("/public/sub"); dir("/public/sub/deep"); dir("/public/dir.txt"); dir("/public/closed"); dir("/public/public2"); dir("/public2"); dir("/public2/sub"); dir("/outside"); dir("/outside/sub"); dir("/public.d"); dir("/other");
	const char* files[] = { "/public/a.txt", "/public/sub/b.txt", "/public/sub/a.txt", "/public/sub/deep/c.txt", "/public/noread.txt", "/public/a b.txt", "/public/caf\xc3\xa9.txt", "/public/enc%2Etxt", "/public/enc.txt", "/public/closed/x.txt", "/public/public2/a.txt", "/public/.hidden", "/public/..x", "/public/empty",
		"/secret.txt", "/a.txt", "/public2/a.txt", "/public2/secret.txt", "/public2/sub/b.txt", "/public2.txt", "/public.txt", "/publicsecret.txt", "/outside/secret.txt", "/outside/a.txt", "/outside/sub/b.txt", "/public.d/a.txt", "/other/a.txt", "/other/o.txt" };
	for (size_t i = 0; i < sizeof files / sizeof *files; ++i) put(t + files[i], std::string(files[i]) == "/public/empty" ? std::string() : std::string("content of ") + files[i]);
	auto link = [&](const std::string& to, const char* at) { if (symlink(to.c_str(), (t + at).c_str())) {} };
	link("sub", "/public/in"); link("sub/b.txt", "/public/inf"); link("../outside", "/public/out"); link("../outside/secret.txt", "/public/outf"); link("../public2", "/public/sib"); link("../public2/a.txt", "/public/sibf"); link("loop", "/public/loop"); link(".", "/public/self");
	link(t + "/outside/secret.txt", "/public/absf"); link(t + "/public/a.txt", "/public/absin"); link("nowhere", "/public/dangling"); link("../../outside/sub", "/public/sub/out2"); link("..", "/public/up"); link("../public", "/public/back"); link("public", "/link"); link("public2", "/link2"); link("/", "/public/root"); link("../public.txt", "/public/extf");
	mkfifo((t + "/public/pipe").c_str(), 0644);
	chmod((t + "/public/noread.txt").c_str(), 0); chmod((t + "/public/closed").c_str(), 0);
	// From here on nothing outside the scratch tree can be written, and file permissions apply.
	if (geteuid() == 0) { if (chown(base.c_str(), 65534, 65534)) {} if (setegid(65534) || seteuid(65534)) {} }
}

enum Verdict { Declines, Forbidden, Serves };
static Verdict verdict(const std::string& publicPath, const std::string& decoded, std::string* content)
{
	char rootReal[PATH_MAX], real[PATH_MAX]; struct stat st;
	if (publicPath.empty() || !realpath(publicPath.c_str(), rootReal) || stat(rootReal, &st) || !S_ISDIR(st.st_mode)) return Declines;
	const std::string full = std::string(rootReal) + "/" + decoded;
	if (stat(full.c_str(), &st) || !realpath(full.c_str(), real)) return Declines;
	std::string prefix = rootReal; if (prefix != "/") prefix += "/";
	if (std::string(real).compare(0, prefix.size(), prefix) != 0 || stat(real, &st) || !S_ISREG(st.st_mode)) return Declines;
	int fd = open(real, O_RDONLY | O_NONBLOCK); if (fd < 0) return Forbidden; close(fd);
	*content = get(real);
	return Serves;
}

static const char* comps[] = { "a.txt", "..", "public2", "sub", "", "secret.txt", ".", "out", "sib", "b.txt", "self", "in", "outf", "public", "up", "back",
	"sibf", "inf", "noread.txt", "absf", "absin", "loop", "dangling", "dir.txt", "closed", "pipe", "a%20b.txt", "caf%C3%A9.txt", "enc%252Etxt", "enc.txt", "a.txt%00", "%00", "..%00", "%FF", ".hidden", "...", "..x", "link", "outside", "out2", "deep", "%5C..", "public.txt", "extf", "A.TXT", "x.txt", "empty", "~", "%2e%2e%2f", "..;", "c.txt" };
static const int NComps = sizeof comps / sizeof *comps;

static std::string percent(const std::string& s, bool lower) { std::string r; char b[4]; for (size_t i = 0; i < s.size(); ++i) { snprintf(b, 4, lower ? "%%%02x" : "%%%02X", (unsigned char)s[i]); r += b; } return r; }

// How a path of components is spelled in the request.
enum Spelling { Plain, EncodedDots, EncodedSeparators, EncodedAll, DoubleEncoded, EncodedFirst, NSpellings };
static std::string spell(const std::vector<std::string>& c, int how)
{
	std::string r = "/";
	for (size_t i = 0; i < c.size(); ++i)
	{
		if (i) r += how == EncodedSeparators ? (i % 2 ? "%2F" : "%2f") : how == DoubleEncoded ? "%252F" : "/";
		if (how == EncodedDots || how == DoubleEncoded) { for (size_t k = 0; k < c[i].size(); ++k) r += c[i][k] == '.' ? (how == DoubleEncoded ? "%252e" : k % 2 ? "%2e" : "%2E") : std::string(1, c[i][k]); }
		else if (how == EncodedAll) r += percent(ref::percentDecode(c[i]), i % 2);
		else if (how == EncodedFirst && !c[i].empty() && c[i][0] != '%') r += percent(c[i].substr(0, 1), true) + c[i].substr(1);
		else r += c[i];
	}
	return r;
}

static void checkServed(Ctx& c, Pillow::HttpHandlerFile& h, const std::string& publicPath, const std::string& target, const char* method = "GET")
{
	ref::Request q; q.method = method; q.path = target;
	Ask ask(q.bytes());
	if (!ask.ready()) { c.fail("harness: request for %s was not delivered", target.c_str()); return; }
	const std::string decoded = ref::percentDecode(target); const bool nul = decoded.find('\0') != std::string::npos;
	// A name with a NUL in it names no file; cutting it there is tolerated.
	std::string content; Verdict v = verdict(publicPath, decoded.substr(0, decoded.find('\0')), &content);
	const bool handled = h.handleRequest(ask.rig.conn);
	pump();
	const std::string& out = ask.rig.dev->out;
	c.log("public %s, %s %s -> %s: %s", publicPath.c_str(), method, target.c_str(), handled ? "handled" : "declined", show(out, 100).c_str());
	c.state(hash(hash(hash(1, publicPath), target), out));
	if (nul && !handled && ask.untouched()) v = Declines;
	if (v == Declines) { if (handled || !ask.untouched()) c.fail("%s (public path %s) must be declined, but: %s %s", target.c_str(), publicPath.c_str(), handled ? "handled," : "declined,", show(out).c_str()); return; }
	ref::Response m; size_t next = 0;
	if (!handled || !ref::parseResponse(out, 0, false, &m, &next) || !m.problem.empty()) { c.fail("%s (public path %s) must be %s, but: %s %s", target.c_str(), publicPath.c_str(), v == Serves ? "served" : "answered 403", handled ? "handled," : "declined,", show(out).c_str()); return; }
	if (v == Forbidden) { if (m.status != 403) c.fail("unreadable %s answered %d", target.c_str(), m.status); return; }
	if (m.status != 200 || m.body != content || next != out.size()) c.fail("%s (public path %s): expected 200 with [%s], sent %s", target.c_str(), publicPath.c_str(), show(content, 60).c_str(), show(out).c_str());
}

static std::string publicVariant(int i)
{
	const std::string t = base + "/tree";
	switch (i)
	{
	case 0: return t + "/public"; case 1: return t + "/public/"; case 2: return t + "/link"; case 3: return t + "/public/sub/.."; case 4: return t + "/public/../public/./"; case 5: return t + "/nonexistent";
	case 6: return ""; case 7: return t + "/a.txt"; case 8: return t + "/public2"; case 9: return t + "/public/sub"; case 10: return t + "/public/in"; case 11: return t + "/public/up/outside"; case 12: return t + "/public/loop"; case 13: return t + "/public/dangling"; case 14: return t + "/public.d"; case 15: return t + "//public";
	case 16: return t + "/public/pipe"; case 17: return t + "/publi"; case 18: return t + "/public/a.txt"; case 19: return t;
	}
	return t + "/other";
}
static const int NVariants = 21;

std::vector<Suite> suitesC11(Tier tier)
{
	std::vector<Suite> v;
	const uint64_t n = NComps;
	auto path = [](uint64_t i, int depth, uint64_t alphabet) { std::vector<std::string> p; for (int k = 0; k < depth; ++k) p.push_back(comps[take(i, alphabet)]); return p; };
	auto handler = [](const std::string& pub) -> Pillow::HttpHandlerFile& { static std::map<std::string, Pillow::HttpHandlerFile*> m; Pillow::HttpHandlerFile*& h = m[pub]; if (!h) h = new Pillow::HttpHandlerFile(QString::fromUtf8(pub.c_str())); return *h; };
	for (int depth = 1; depth <= 4; ++depth)
	{
		const uint64_t a = depth <= 3 ? n : tier == Thorough ? 30 : 15;
		uint64_t total = NSpellings; for (int k = 0; k < depth; ++k) total *= a;
		v.push_back(Suite("paths-" + ref::num(depth), "every path of " + ref::num(depth) + " components out of " + ref::num(a) + " (plain, dot-dot, empty, links in and out, siblings extending the public directory's name, unreadable, special, NUL, non-ASCII) x " + ref::num(NSpellings) + " spellings (encoded dots, separators, all, doubly)", total,
			[=](Ctx& c, uint64_t r) { makeTree(); const int s = take(r, NSpellings); checkServed(c, handler(publicVariant(0)), publicVariant(0), spell(path(r, depth, a), s)); }, 20));
	}
	{
		const uint64_t a = tier == Thorough ? 12 : 10; const int depth = tier == Thorough ? 6 : 5;
		uint64_t total = 1; for (int k = 0; k < depth; ++k) total *= a;
		v.push_back(Suite("deep-paths", "every path of " + ref::num(depth) + " components out of " + ref::num(a), total, [=](Ctx& c, uint64_t r) { makeTree(); checkServed(c, handler(publicVariant(0)), publicVariant(0), spell(path(r, depth, a), Plain)); }, 20));
	}
	v.push_back(Suite("public-path-variants", ref::num(NVariants) + " ways to name the public path (links, dot-dot, trailing and double slashes, missing, a file, a fifo, prefix of another name, empty) x every path of up to 2 components x plain or encoded", NVariants * 2 * (n + n * n),
		[=](Ctx& c, uint64_t r) { makeTree(); const std::string pub = publicVariant(take(r, NVariants)); const int s = take(r, 2) ? EncodedAll : Plain; checkServed(c, handler(pub), pub, spell(r < n ? path(r, 1, n) : path(r - n, 2, n), s)); }, 20));
	v.push_back(Suite("own-names", "every file of the scratch tree asked under every public path by its absolute name, by its name relative to the tree, and by climbing to it, with GET, HEAD, POST", NVariants * 28 * 3 * 3,
		[=](Ctx& c, uint64_t r)
		{
			makeTree(); const std::string pub = publicVariant(take(r, NVariants));
			static const char* files[] = { "/public/a.txt", "/public/sub/b.txt", "/public/sub/a.txt", "/public/sub/deep/c.txt", "/public/noread.txt", "/public/a%20b.txt", "/public/caf%C3%A9.txt", "/public/enc%252Etxt", "/public/enc.txt", "/public/closed/x.txt", "/public/public2/a.txt", "/public/.hidden", "/public/..x", "/public/empty",
				"/secret.txt", "/a.txt", "/public2/a.txt", "/public2/secret.txt", "/public2/sub/b.txt", "/public2.txt", "/public.txt", "/publicsecret.txt", "/outside/secret.txt", "/outside/a.txt", "/outside/sub/b.txt", "/public.d/a.txt", "/other/a.txt", "/other/o.txt" };
			const std::string f = files[take(r, 28)]; const int how = take(r, 3);
			static const char* methods[] = { "GET", "POST", "DELETE" };
			checkServed(c, handler(pub), pub, how == 0 ? base + "/tree" + f : how == 1 ? f : "/.." + f, methods[take(r, 3)]);
		}, 20));
	v.push_back(Suite("whole-filesystem", "public path '/': files of the scratch tree by absolute name, with 0-2 extra leading components", 6 * 3, [=](Ctx& c, uint64_t r)
		{
			makeTree(); static const char* f[] = { "/tree/public/a.txt", "/tree/public/outf", "/tree/none", "/tree/public", "/tree/public/noread.txt", "/tree/../tree/a.txt" }; static const char* pre[] = { "", "/.", "/.." };
			const std::string file = f[take(r, 6)]; checkServed(c, handler("/"), "/", pre[take(r, 3)] + base + file);
		}, 20));
	v.push_back(Suite("opaque-targets", "targets that are not paths ('*', absolute URIs) under every public path: nothing but files inside may be sent", NVariants * 6, [=](Ctx& c, uint64_t r)
		{
			makeTree(); const std::string pub = publicVariant(take(r, NVariants)); static const char* t[] = { "*", "http://h/a.txt", "http://h/../secret.txt", "http://h", "file:///" , "http://h/../public2/a.txt" };
			ref::Request q; q.uri = t[take(r, 6)]; q.opaque = true; q.method = "OPTIONS";
			Ask ask(q.bytes()); if (!ask.ready()) { c.step(); return; }
			const bool handled = handler(pub).handleRequest(ask.rig.conn); pump();
			c.log("%s under %s: %s", q.uri.c_str(), pub.c_str(), show(ask.rig.dev->out).c_str()); c.state(hash(hash(2, pub), ask.rig.dev->out));
			std::string content; const bool ok = verdict(pub, "a.txt", &content) == Serves;
			if (!handled) { if (!ask.untouched()) c.fail("declined %s, but sent %s", q.uri.c_str(), show(ask.rig.dev->out).c_str()); return; }
			ref::Response m; size_t next = 0; if (!ref::parseResponse(ask.rig.dev->out, 0, false, &m, &next)) { c.fail("%s under %s handled, but not answered", q.uri.c_str(), pub.c_str()); return; }
			if (m.status == 200 && !(ok && m.body == content)) c.fail("%s under %s sent %s", q.uri.c_str(), pub.c_str(), show(m.body).c_str());
		}, 20));
	v.push_back(Suite("changing-public-path", "every sequence of 3 public paths out of " + ref::num(NVariants) + ", two requests after each change", NVariants * NVariants * NVariants, [=](Ctx& c, uint64_t r)
		{
			makeTree(); Pillow::HttpHandlerFile h; static const char* t[] = { "/a.txt", "/sub/b.txt", "/../secret.txt", "/o.txt", "/../public2/a.txt" };
			checkServed(c, h, "", "/a.txt");
			for (int i = 0; i < 3 && !c.failed(); ++i) { const std::string pub = publicVariant(take(r, NVariants)); h.setPublicPath(QString::fromUtf8(pub.c_str())); for (int k = 0; k < 5 && !c.failed(); ++k) checkServed(c, h, pub, t[k]); }
		}, 20));
	const int td = tier == Thorough ? 6 : 5; uint64_t tn = 3; for (int k = 0; k < td - 1; ++k) tn *= 12;
	v.push_back(Suite("changing-tree", "every sequence of " + ref::num(td) + " operations: /x becomes a file, a link out, a link to a file inside, nothing, unreadable; /y becomes a directory, a link to one outside, to one inside, nothing; request /x, /y/f.txt, /y/../x: what the paths resolve to at that moment decides", tn, [=](Ctx& c, uint64_t r)
		{
			makeTree(); const std::string t = base + "/ct", pub = t + "/pub"; std::string ops; static bool made = false;
			if (!made) { made = true; mkdir(t.c_str(), 0755); mkdir(pub.c_str(), 0755); mkdir((pub + "/in").c_str(), 0755); mkdir((t + "/out").c_str(), 0755); mkdir((t + "/pub2").c_str(), 0755); put(pub + "/in/f.txt", "inside f"); put(pub + "/in/x.txt", "inside x"); put(t + "/out/f.txt", "outside f"); put(t + "/out/x.txt", "outside x"); put(t + "/out/x", "outside x"); put(t + "/pub2/f.txt", "sibling f"); }
			auto clearX = [&]() { unlink((pub + "/x").c_str()); }; auto clearY = [&]() { unlink((pub + "/y").c_str()); unlink((pub + "/y/f.txt").c_str()); rmdir((pub + "/y").c_str()); };
			clearX(); clearY(); Pillow::HttpHandlerFile h(QString::fromUtf8(pub.c_str()));
			for (int s = 0; s < td && !c.failed(); ++s)
			{
				const int op = s == td - 1 ? 9 + take(r, 3) : take(r, 12); ops += " " + ref::num(op);
				if (op < 4) clearX(); else if (op < 8) clearY();
				switch (op)
				{
				case 0: put(pub + "/x", "own x"); break; case 1: if (symlink("../out/x.txt", (pub + "/x").c_str())) {} break; case 2: if (symlink("in/x.txt", (pub + "/x").c_str())) {} break;
				case 4: mkdir((pub + "/y").c_str(), 0755); put(pub + "/y/f.txt", "own f"); break; case 5: if (symlink(s % 2 ? "../pub2" : "../out", (pub + "/y").c_str())) {} break; case 6: if (symlink("in", (pub + "/y").c_str())) {} break;
				case 8: { struct stat st; if (lstat((pub + "/x").c_str(), &st) == 0 && S_ISREG(st.st_mode)) chmod((pub + "/x").c_str(), 0); } break;
				case 9: checkServed(c, h, pub, "/x"); break; case 10: checkServed(c, h, pub, "/y/f.txt"); break; case 11: checkServed(c, h, pub, "/y/../x"); break;
				}
			}
			c.log("operations%s", ops.c_str());
		}, 20));
	return v;
}

//
// C12
//
static std::string files12() { makeBase(); static bool made = false; const std::string d = base + "/t"; if (!made) { made = true; mkdir(d.c_str(), 0755); } return d; }

// A client of one file request, with the output drained by the explorer.
struct Fetch
{
	Ask ask; ref::Request q; int buffer;
	Fetch(const ref::Request& q, Pillow::HttpHandler& h, int buffer, const std::string& extra = "") : ask("", false), q(q), buffer(buffer)
	{
		ask.rig.onReady = [&h](Conn* k) { if (!h.handleRequest(k)) k->writeResponse(404); };
		ask.rig.dev->give(q.bytes() + extra);
	}
	MemDevice* dev() { return ask.rig.dev; }
};

static const char* exts[] = { ".html", ".jpg", ".jpeg", ".png", ".gif", ".css", ".js", ".xml" };
static const char* types[] = { "text/html", "image/jpeg", "image/jpeg", "image/png", "image/gif", "text/css", "text/javascript", "text/xml" };
static std::string mime(const std::string& name) { for (int i = 0; i < 8; ++i) { const std::string e = exts[i]; if (name.size() >= e.size() && ref::ieq(name.substr(name.size() - e.size()), e)) return types[i]; } return "application/octet-stream"; }

static std::string checkFile(const std::string& out, size_t pos, const ref::Request& q, const std::string& name, const std::string& content, size_t* next, std::string* etag = 0)
{
	ref::Response m; if (!ref::parseResponse(out, pos, q.method == "HEAD", &m, next)) return "no complete response head: " + show(out.substr(pos), 300);
	const std::string got = " in: " + show(out.substr(pos), 300);
	if (!m.problem.empty()) return m.problem + got;
	if (m.status != 200) return "status " + ref::num(m.status) + got;
	if (ref::value(m.headers, "content-length") != ref::num(content.size())) return "content-length is not " + ref::num(content.size()) + got;
	if (ref::count(m.headers, "content-type") != 1 || ref::value(m.headers, "content-type") != mime(name)) return "content type of " + name + " is not " + mime(name) + got;
	if (q.method != "HEAD" && !m.complete) return "only " + ref::num(m.body.size()) + " of " + ref::num(content.size()) + " bytes arrived" + got;
	if (q.method != "HEAD" && m.body != content) return "the content differs" + got;
	if (etag) *etag = ref::value(m.headers, "etag");
	return "";
}

enum Pace { All, Third, Fixed100, OneThenAll, HoldBack, Fixed1000, NPaces };
static const char* paceNames[] = { "everything at once", "a third at a time", "100 bytes at a time", "1 byte, then everything", "all but one byte", "1000 bytes at a time" };
static qint64 paceStep(int pace, int i, qint64 pending)
{
	qint64 n = pace == All ? pending : pace == Third ? pending / 3 : pace == Fixed100 ? 100 : pace == OneThenAll ? (i % 2 ? pending : 1) : pace == HoldBack ? (pending > 1 ? pending - 1 : 1) : 1000;
	return qMax<qint64>(1, qMin(n, pending));
}

static ref::Request fileRequest(const std::string& name, int kind)
{
	ref::Request q; q.path = "/" + name; q.h("Host", "h");
	if (kind == 1) q.method = "HEAD"; if (kind == 2) q.h("Connection", "close"); if (kind == 3) q.version = "HTTP/1.0"; if (kind == 4) { q.version = "HTTP/1.0"; q.h("Connection", "keep-alive"); }
	return q;
}

static int openFiles() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }

std::vector<Suite> suitesC12(Tier tier)
{
	const bool deep = tier == Thorough;
	std::vector<Suite> v;
	struct Size { int buffer; long long size; };
	static std::vector<Size> sizes; sizes.clear();
	{
		const int buffers[] = { 512, 513, 1000, 1024, 4096, 16384, 65536 };
		for (int b = 0; b < (deep ? 7 : 5); ++b)
		{
			const long long B = buffers[b]; const long long s[] = { 0, 1, B - 1, B, B + 1, B + 100, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 7, 4 * B, 10 * B + 3 };
			for (int i = 0; i < 12; ++i) { Size x = { buffers[b], s[i] }; sizes.push_back(x); }
		}
		const int small[] = { 511, 100, 1, 0, -1, -1000 }; const long long ss[] = { 0, 1, 99, 100, 101, 511, 512, 513, 2000 };
		for (int b = 0; b < 6; ++b) for (int i = 0; i < 9; ++i) { Size x = { small[b], ss[i] }; sizes.push_back(x); }
		const long long big[] = { 524287, 524288, 524289, 1048576, 1048577, 1200000 };
		for (int i = 0; i < 6; ++i) { Size x = { 0x7fffffff, big[i] }; sizes.push_back(x); } // marker: the default buffer size
	}
	const uint64_t kinds = 5;
	auto contentOf = [](long long n) { return ref::pattern((size_t)n, (unsigned)n); };
	auto limitOf = [](int buffer) { return (long long)(buffer < 512 ? 512 : buffer) + 1024; };

	v.push_back(Suite("sizes-and-paces", "file size 0, 1, and around 1x, 2x, 3x, 4x, 10x the buffer size x buffer sizes 512-4096 (thorough: 64K), too small ones and the default x 5 request kinds x " + ref::num(NPaces) + " drain paces; next request afterwards", sizes.size() * kinds * NPaces, [=](Ctx& c, uint64_t r)
	{
		const Size z = sizes[take(r, sizes.size())]; const ref::Request q = fileRequest("f.html", take(r, kinds)); const int pace = take(r, NPaces);
		const std::string d = files12(), content = contentOf(z.size); put(d + "/f.html", content); put(d + "/next.css", "next file");
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); const int buffer = z.buffer == 0x7fffffff ? h.bufferSize() : z.buffer; h.setBufferSize(buffer);
		if (z.size > 100000 && (pace == Fixed100 || pace == Fixed1000)) { c.step(); return; }
		c.log("%lld bytes, buffer %d, %s %s, drained %s", z.size, buffer, q.method.c_str(), q.version.c_str(), paceNames[pace]);
		Fetch f(q, h, buffer); pump(); int i = 0;
		for (; f.dev()->pending > 0 && i < 200000; ++i) { f.dev()->drain(paceStep(pace, i, f.dev()->pending)); pump(); }
		c.state(f.ask.rig.stateHash(pace));
		size_t next = 0; std::string p = checkFile(f.dev()->out, 0, q, "f.html", content, &next);
		if (p.empty() && next != f.dev()->out.size()) p = "extra output";
		if (p.empty() && f.dev()->maxPending > (z.size <= buffer ? z.size + 1024 : limitOf(buffer))) p = "held " + ref::num(f.dev()->maxPending) + " unsent bytes";
		if (p.empty() && f.ask.rig.count('C') != 1) p = "requestCompleted emitted " + ref::num(f.ask.rig.count('C')) + " times";
		const bool keep = clientKeepsAlive(q);
		if (p.empty() && f.ask.rig.closed() == keep) p = keep ? "closed although keep-alive" : "not closed";
		if (p.empty() && keep)
		{
			const ref::Request n = fileRequest("next.css", 0); const size_t at = f.dev()->out.size(); f.dev()->give(n.bytes()); pump();
			for (i = 0; f.dev()->pending > 0 && i < 100; ++i) { f.dev()->drain(f.dev()->pending); pump(); }
			p = checkFile(f.dev()->out, at, n, "next.css", "next file", &next); if (p.empty() && next != f.dev()->out.size()) p = "extra output after the next response";
			if (!p.empty()) p = "next request: " + p;
		}
		if (!p.empty()) c.fail("%lld byte file, buffer %d, %s %s, drained %s: %s", z.size, buffer, q.method.c_str(), q.version.c_str(), paceNames[pace], p.c_str());
	}, 60));

	// Something happens after any number of drain steps.
	enum Happening { Pipelined, PipelinedHead, PipelinedLarge, DeviceCloses, ServerCloses, ConnectionDeleted, Grows, GrowsByOne, Shrinks, ShrinksToOne, Vanishes, HandlerDeleted, SecondFetch, DeviceAndConnectionDeleted, NHappenings };
	static const char* hNames[] = { "a pipelined request arrives", "a pipelined HEAD of a large file arrives", "a pipelined request for another large file arrives", "the client disconnects", "the server closes the connection", "the connection is deleted", "the file grows a lot", "the file grows by a byte", "the file is emptied", "the file is cut to one byte", "the file is removed", "the handler is deleted", "another client fetches it too", "device and connection are deleted" };
	const long long hs[] = { 1000, 1024, 3000, 512 * 3, 513 }; const uint64_t nhs = 5; const uint64_t steps = deep ? 12 : 7;
	static long long hsizes[5]; for (int i = 0; i < 5; ++i) hsizes[i] = hs[i];
	v.push_back(Suite("interruptions", "GET or HEAD of a file of 5 sizes with a 512 byte buffer, x 14 events x after each of " + ref::num(steps) + " drain steps x 3 paces", nhs * NHappenings * steps * 3 * 2, [=](Ctx& c, uint64_t r)
	{
		const long long size = hsizes[take(r, nhs)]; const int what = take(r, NHappenings), when = take(r, steps), pace = take(r, 3); const ref::Request q = fileRequest("f.js", take(r, 2));
		const std::string d = files12(), content = contentOf(size), content2 = contentOf(1700); put(d + "/f.js", content); put(d + "/g.xml", content2); put(d + "/small.png", "small one");
		QPointer<Pillow::HttpHandlerFile> h(new Pillow::HttpHandlerFile(QString::fromUtf8(d.c_str()))); h->setBufferSize(512);
		const int filesBefore = openFiles();
		Fetch f(q, *h, 512); Fetch* second = 0; std::vector<ref::Request> more; std::vector<std::string> names, contents; bool gone = false, cut = false; size_t cutAt = 0;
		pump();
		auto happen = [&]()
		{
			switch (what)
			{
			case Pipelined: more.push_back(fileRequest("small.png", 0)); names.push_back("small.png"); contents.push_back("small one"); f.dev()->give(more[0].bytes()); break;
			case PipelinedHead: for (int k = 0; k < 2; ++k) { more.push_back(fileRequest(k ? "small.png" : "g.xml", k ? 0 : 1)); names.push_back(k ? "small.png" : "g.xml"); contents.push_back(k ? "small one" : content2); } f.dev()->give(more[0].bytes() + more[1].bytes()); break;
			case PipelinedLarge: more.push_back(fileRequest("g.xml", 0)); names.push_back("g.xml"); contents.push_back(content2); f.dev()->give(more[0].bytes()); break;
			case DeviceCloses: gone = true; f.dev()->close(); break;
			case ServerCloses: gone = true; f.ask.rig.conn->close(); break;
			case ConnectionDeleted: gone = true; delete f.ask.rig.conn; f.ask.rig.conn = 0; break;
			case DeviceAndConnectionDeleted: gone = true; delete f.ask.rig.conn; f.ask.rig.conn = 0; break;
			case Grows: put(d + "/f.js", content + ref::text(5000)); break;
			case GrowsByOne: { int fd = open((d + "/f.js").c_str(), O_WRONLY | O_APPEND); if (write(fd, "x", 1)) {} close(fd); } break;
			case Shrinks: if (truncate((d + "/f.js").c_str(), 0)) {} cut = true; cutAt = 0; break;
			case ShrinksToOne: if (truncate((d + "/f.js").c_str(), 1)) {} cut = true; cutAt = 1; break;
			case Vanishes: unlink((d + "/f.js").c_str()); break;
			case HandlerDeleted: delete h; break;
			case SecondFetch: second = new Fetch(fileRequest("f.js", 0), *h, 512); break;
			}
			pump();
		};
		c.log("%s of %lld bytes: %s after %d steps, drained %s", q.method.c_str(), size, hNames[what], when, paceNames[pace]);
		bool done = false;
		for (int i = 0; i < 4000; ++i)
		{
			if (i == when) { happen(); done = true; if (gone) break; }
			bool moved = false;
			if (f.dev()->pending > 0) { f.dev()->drain(paceStep(pace, i, f.dev()->pending)); pump(); moved = true; }
			if (second && second->dev()->pending > 0) { second->dev()->drain(paceStep((pace + 1) % 3, i, second->dev()->pending)); pump(); moved = true; }
			if (!moved && i > when) break;
		}
		std::string p; const std::string out = f.dev()->out; size_t at = 0, next = 0;
		if (gone)
		{
			for (int i = 0; i < 5; ++i) { if (f.dev()->pending > 0) f.dev()->drain(f.dev()->pending); pump(); }
			if (f.dev()->out != out) p = "output written after the connection was gone";
			ref::Response m; if (p.empty() && ref::parseResponse(out, 0, q.method == "HEAD", &m, &next) && m.body != content.substr(0, m.body.size())) p = "the part sent is not the beginning of the file";
		}
		else
		{
			ref::Response m; const bool head = ref::parseResponse(out, 0, q.method == "HEAD", &m, &next);
			if (!head) p = "no response head";
			else if (cut && q.method != "HEAD" && !m.complete)
			{
				if (m.body != content.substr(0, m.body.size())) p = "the part sent is not the beginning of the file";
				else if (!f.ask.rig.closed()) p = "hangs in " + std::string(stateName(f.ask.rig.conn->state())) + " after the file was cut short";
			}
			else p = checkFile(out, 0, q, "f.js", content, &next);
			if (p.empty() && !cut) { at = next; for (size_t k = 0; k < more.size() && p.empty(); ++k) { p = checkFile(out, at, more[k], names[k], contents[k], &next); at = next; if (!p.empty()) p = "response " + ref::num(k + 2) + ": " + p; } if (p.empty() && at != out.size()) p = "extra output: " + show(out.substr(at), 200); }
			if (p.empty() && !cut && f.ask.rig.conn->state() != Conn::ReceivingHeaders) p = std::string("ends in state ") + stateName(f.ask.rig.conn->state());
			if (p.empty() && second) { p = checkFile(second->dev()->out, 0, second->q, "f.js", content, &next); if (!p.empty()) p = "second client: " + p; }
			if (p.empty() && f.dev()->maxPending > limitOf(512) + (long long)more.size() * 600) p = "held " + ref::num(f.dev()->maxPending) + " unsent bytes";
		}
		c.state(hash(hash(hash(what, out), (uint64_t)done), f.ask.rig.conn ? (uint64_t)f.ask.rig.conn->state() : 99));
		delete second; delete h; if (f.ask.rig.conn) f.ask.rig.conn->close(); pump(); pump();
		if (p.empty() && openFiles() > filesBefore) p = "the file is still open after the connection was closed";
		if (!p.empty()) c.fail("%s of %lld bytes, buffer 512, %s after %d drain steps (%s): %s", q.method.c_str(), size, hNames[what], when, paceNames[pace], p.c_str());
	}, 60));

	// The transfer class itself, with any device as its source.
	enum { TNothing, TSourceDeleted, TClosed, TDeviceCloses, TConnectionDeleted, NTHappenings };
	static const char* tNames[] = { "nothing else", "the source is deleted", "the server closes the connection", "the client disconnects", "the connection is deleted" };
	v.push_back(Suite("transfer-of-any-device", "a buffer (from its start, or from byte 100 on) of 7 sizes sent with a transfer object of 4 buffer sizes in a response {with length, chunked, until close} x {keep-alive, close} x 6 paces x 5 events after 0-3 steps", 7 * 2 * 4 * 3 * 2 * NPaces, [=](Ctx& c, uint64_t r)
	{
		static const int tsizes[] = { 1, 511, 512, 513, 1024, 1300, 4000 }; static const int buffers[] = { 512, 700, 100, 100000 };
		const int size = tsizes[take(r, 7)], offset = take(r, 2) ? 100 : 0, buffer = buffers[take(r, 4)], mode = take(r, 3), kind = take(r, 2) ? 2 : 0, pace = take(r, NPaces);
		const int what = c.choose(NTHappenings), when = what == TNothing ? 0 : c.choose(4);
		const std::string content = contentOf(size), before = std::string(offset, '#'); const ref::Request q = fileRequest("x", kind);
		QByteArray data = qb(before + content); QPointer<QBuffer> source(new QBuffer); source->setData(data); source->open(QIODevice::ReadOnly); source->seek(offset);
		int finished = 0; bool gone = false, deleted = false;
		{
			Ask ask("", false); QPointer<Pillow::HttpHandlerFileTransfer> t; Reply rep; rep.how = Reply::Pieces; rep.pieces.push_back(content);
			if (mode == 0) rep.h("Content-Length", ref::num(size)); else if (mode == 1) rep.h("Transfer-Encoding", "chunked");
			ask.rig.onReady = [&](Conn* k) {
				k->writeHeaders(200, qh(rep.headers));
				t = new Pillow::HttpHandlerFileTransfer(source, k, buffer);
				QObject::connect(t.data(), &Pillow::HttpHandlerFileTransfer::finished, [&, k]() { ++finished; if (mode) k->endContent(); });
				t->writeNextPayload();
			};
			MemDevice* dev = ask.rig.dev; dev->give(q.bytes()); pump(); std::string out;
			for (int i = 0; i < 8000; ++i)
			{
				if (what != TNothing && i == when)
				{
					if (what == TSourceDeleted) delete source.data(); else if (what == TClosed) ask.rig.conn->close(); else if (what == TDeviceCloses) dev->close(); else { delete ask.rig.conn; ask.rig.conn = 0; }
					if (what != TSourceDeleted) { gone = true; out = dev->out; } else deleted = true;
					pump();
				}
				if (dev->pending <= 0) { if (i > when) break; continue; }
				dev->drain(paceStep(pace, i, dev->pending)); pump();
			}
			c.state(hash(hash(hash(mode, dev->out), finished), what * 4 + when)); std::string p; size_t next = 0;
			if (gone && dev->out != out) p = "output written after the connection was gone";
			ref::Response m;
			if (p.empty() && !ref::parseResponse(dev->out, 0, false, &m, &next)) { if (!gone) p = "no response head"; }
			else if (p.empty() && (gone || deleted)) { if (content.compare(0, m.body.size(), m.body)) p = "the part sent is not the beginning of the content"; }
			else if (p.empty()) { p = checkMessage(dev->out, 0, q, rep, prescribe(q, rep), &next); if (p.empty() && next != dev->out.size()) p = "extra output"; if (p.empty() && finished != 1) p = "finished " + ref::num(finished) + " times"; if (p.empty() && ask.rig.count('C') != 1) p = "not completed"; }
			if (p.empty() && dev->maxPending > (buffer < 512 ? 512 : buffer) + 1024) p = "held " + ref::num(dev->maxPending) + " unsent bytes";
			if (p.empty() && finished > 1) p = "finished twice";
			if (ask.rig.conn) ask.rig.conn->close(); pump();
			if (p.empty() && t && finished == 0) p = "the transfer object outlives its connection";
			if (!p.empty()) c.fail("%d bytes from byte %d, buffer %d, %s, %s, %s after %d steps: %s", size, offset, buffer, mode == 0 ? "length" : mode == 1 ? "chunked" : "until close", paceNames[pace], tNames[what], when, p.c_str());
			delete t.data();
		}
		delete source.data(); pump();
	}, 60));

	v.push_back(Suite("concurrent-transfers", "two or three clients fetching files of 3 buffers each through one handler: every order of drains (everything / half of what is pending), first " + ref::num(deep ? 7 : 5) + " drains (one less with three clients), then to the end", 4 * 12, [=](Ctx& c, uint64_t r)
	{
		const int clients = 2 + take(r, 2); const bool same = take(r, 2); const std::string d = files12(); std::vector<std::string> contents, names;
		for (int i = 0; i < clients; ++i) { contents.push_back(ref::text(1300 + (same ? 0 : i * 50), same ? 0 : i)); names.push_back("c" + ref::num(same ? 0 : i) + ".gif"); put(d + "/" + names[i], contents[i]); }
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); h.setBufferSize(512); std::vector<Fetch*> f;
		for (int i = 0; i < clients; ++i) f.push_back(new Fetch(fileRequest(names[i], 0), h, 512));
		pump(); std::string order;
		for (int s = 0; s < (deep ? 9 : 7) - clients; ++s)
		{
			std::vector<int> can; for (int i = 0; i < clients; ++i) if (f[i]->dev()->pending > 0) can.push_back(i);
			if (can.empty()) break;
			const int first = s == 0 ? take(r, 12) : -1; if (first >= 4 * (int)can.size()) break;
			const int who = can[first >= 0 ? first / 4 : c.choose((int)can.size())]; const bool half = first >= 0 ? first / 2 % 2 : c.choose(2); Fetch* x = f[who];
			x->dev()->drain(half ? (x->dev()->pending + 1) / 2 : x->dev()->pending); order += ref::num(who) + (half ? "h" : "a");
			if (first >= 0 ? first % 2 : c.choose(2)) { pump(); order += "p"; }
			c.state(hash(hash(hash(clients, order), x->dev()->out), (uint64_t)x->dev()->pending));
		}
		for (int i = 0; i < 50; ++i) for (int k = 0; k < clients; ++k) { pump(); if (f[k]->dev()->pending > 0) f[k]->dev()->drain(f[k]->dev()->pending); }
		for (int i = 0; i < clients; ++i) { size_t next; std::string p = checkFile(f[i]->dev()->out, 0, f[i]->q, names[i], contents[i], &next); if (p.empty() && next != f[i]->dev()->out.size()) p = "extra output"; if (p.empty() && f[i]->dev()->maxPending > limitOf(512)) p = "held " + ref::num(f[i]->dev()->maxPending) + " bytes"; if (!p.empty()) { c.fail("client %d of %d, order %s: %s", i, clients, order.c_str(), p.c_str()); break; } }
		for (int i = 0; i < clients; ++i) delete f[i]; pump();
	}, 60));

	v.push_back(Suite("mime-types", "every known extension and 12 other endings x 6 letter cases x small or large file x GET, HEAD", 20 * 6 * 2 * 2, [=](Ctx& c, uint64_t r)
	{
		static const char* other[] = { "", ".txt", ".htm", ".html.txt", ".jsx", ".json", ".xhtml", ".jpgg", ".", ".css~", "html", ".js.png" };
		const int e = take(r, 20), cs = take(r, 6); const bool large = take(r, 2); const int kind = take(r, 2); std::string ext = e < 8 ? exts[e] : other[e - 8];
		for (size_t i = 0; i < ext.size(); ++i) if (cs == 1 || (cs == 2 && i % 2) || (cs == 3 && i == 1) || (cs == 4 && i + 1 == ext.size())) ext[i] = toupper(ext[i]);
		const std::string d = files12(), name = cs == 5 ? "a.png" + ext : "m" + ext, content = ref::text(large ? 700 : 10); put(d + "/" + name, content);
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); h.setBufferSize(512); const ref::Request q = fileRequest(name, kind); Fetch f(q, h, 512);
		for (int i = 0; i < 20; ++i) { pump(); if (f.dev()->pending > 0) f.dev()->drain(f.dev()->pending); }
		size_t next; const std::string p = checkFile(f.dev()->out, 0, q, name, content, &next); c.log("%s -> %s", name.c_str(), show(f.dev()->out, 100).c_str()); c.state(hash(3, f.dev()->out));
		unlink((d + "/" + name).c_str());
		if (!p.empty()) c.fail("%s (%s): %s", name.c_str(), large ? "large" : "small", p.c_str());
	}, 30));

	v.push_back(Suite("etags", "pairs of 16 contents (equal under other names and times, one bit apart, prefixes, empty, exactly one buffer) and 9 forms of If-None-Match, x GET, HEAD x keep-alive kinds, next request afterwards", 16 * 16 * 9 * 3, [=](Ctx& c, uint64_t r)
	{
		auto content = [](int i) -> std::string { std::string s = ref::text(64); switch (i) { case 0: return ""; case 1: return "a"; case 2: return "b"; case 3: return std::string(1, 0); case 4: return std::string(2, 0); case 5: return s; case 6: s[0] ^= 1; return s; case 7: s[63] ^= 1; return s; case 8: s[32] ^= 128; return s; case 9: return s.substr(0, 63); case 10: return s + "x"; case 11: return ref::text(511); case 12: return ref::text(512); case 13: return ref::text(512, 1); case 14: return ref::pattern(512); } std::string t = ref::text(512); t[511] ^= 4; return t; };
		const int a = take(r, 16), b = take(r, 16), form = take(r, 9); static const int ks[] = { 0, 1, 4 }; const int kind = ks[take(r, 3)];
		const std::string d = files12(), ca = content(a), cb = content(b); put(d + "/one.css", ca); put(d + "/two.js", cb); put(d + "/next.css", "next file");
		struct timeval tv[2] = { { 1000000 + a, 0 }, { 1000000 + b, 0 } }; utimes((d + "/one.css").c_str(), tv);
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); h.setBufferSize(512); std::string p, tag; size_t next;
		{ const ref::Request q = fileRequest("one.css", 0); Fetch f(q, h, 512); pump(); p = checkFile(f.dev()->out, 0, q, "one.css", ca, &next, &tag); if (p.empty() && tag.empty()) p = "no ETag"; }
		if (p.empty())
		{
			ref::Request q = fileRequest("two.js", kind); std::string v = tag; bool match = ca == cb;
			switch (form) { case 1: v = ""; match = false; break; case 2: v = tag + "x"; match = false; break; case 3: v = tag.substr(0, tag.size() - 1); match = false; break; case 4: v = "x" + tag; match = false; break; case 5: v = "0123456789abcdef0123456789abcdef"; match = false; break; case 6: v = std::string(tag.size(), '0'); match = false; break; }
			if (form != 7) q.h(form == 8 ? "if-none-match" : "If-None-Match", v); else match = false;
			if (form == 1 ) q.headers.pop_back();
			Fetch f(q, h, 512); pump();
			c.log("%d/%d form %d: %s", a, b, form, show(f.dev()->out, 200).c_str()); c.state(hash(4, f.dev()->out));
			std::string other;
			if (match)
			{
				ref::Response m; if (!ref::parseResponse(f.dev()->out, 0, q.method == "HEAD", &m, &next) || !m.problem.empty()) p = "bad response " + show(f.dev()->out); else if (m.status != 304) p = "matching If-None-Match answered " + ref::num(m.status); else if (next != f.dev()->out.size()) p = "body after 304: " + show(f.dev()->out);
			}
			else { p = checkFile(f.dev()->out, 0, q, "two.js", cb, &next, &other); if (p.empty() && (other == tag) != (ca == cb)) p = ca == cb ? "equal contents have different ETags" : "different contents share the ETag " + tag; if (p.empty() && next != f.dev()->out.size()) p = "extra output"; }
			if (p.empty())
			{
				const ref::Request n = fileRequest("next.css", 0); const size_t at = f.dev()->out.size(); f.dev()->give(n.bytes()); pump(); p = checkFile(f.dev()->out, at, n, "next.css", "next file", &next); if (!p.empty()) p = "next request: " + p;
			}
		}
		if (!p.empty()) c.fail("contents %d and %d, If-None-Match form %d, kind %d: %s", a, b, form, kind, p.c_str());
	}, 30));

	v.push_back(Suite("etag-differences", "pairs of files of 11 sizes (1 byte to 524288, the default buffer) that differ in one bit of one byte, at each of 24 offsets (either side of every power of two from 512 on, first, middle, last), default buffer: the tag of one never validates the other", 11 * 24, [=](Ctx& c, uint64_t r)
	{
		static const int sz[] = { 1, 2, 600, 1025, 2049, 4097, 8193, 16385, 65537, 300000, 524288 }; static const int at[] = { 0, 1, 511, 512, 513, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32768, 65535, 65536, 131072, 262143, 262144, 500000, -1, -2 };
		const int size = sz[take(r, 11)]; int offset = at[take(r, 24)]; if (offset == -1) offset = size - 1; else if (offset == -2) offset = size / 2;
		if (offset >= size) { c.step(); return; }
		const std::string d = files12(), ca = ref::text(size); std::string cb = ca; cb[offset] ^= 1 << c.choose(4); put(d + "/one.html", ca); put(d + "/two.html", cb);
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); std::string p, tags[2]; size_t next;
		for (int k = 0; k < 2 && p.empty(); ++k)
		{
			const std::string name = k ? "two.html" : "one.html"; ref::Request q = fileRequest(name, 0); Fetch f(q, h, 524288); pump(); if (f.dev()->pending > 0) f.dev()->drain(f.dev()->pending);
			p = checkFile(f.dev()->out, 0, q, name, k ? cb : ca, &next, &tags[k]); if (p.empty() && tags[k].empty()) p = "no ETag";
		}
		if (p.empty() && tags[0] == tags[1]) p = "both have the ETag " + tags[0];
		for (int k = 0; k < 2 && p.empty(); ++k) // The other file's tag, then its own.
		{
			ref::Request q = fileRequest("two.html", 0); q.h("If-None-Match", tags[k]); Fetch f(q, h, 524288); pump(); if (f.dev()->pending > 0) f.dev()->drain(f.dev()->pending);
			ref::Response m;
			if (k == 0) p = checkFile(f.dev()->out, 0, q, "two.html", cb, &next); else if (!ref::parseResponse(f.dev()->out, 0, false, &m, &next) || m.status != 304) p = "its own ETag is not answered 304";
		}
		c.state(hash(hash(size, tags[0]), tags[1])); c.log("%d bytes, different at %d: %s and %s", size, offset, tags[0].c_str(), tags[1].c_str());
		if (!p.empty()) c.fail("files of %d bytes that differ in byte %d: %s", size, offset, show(p, 300).c_str());
	}, 30));

	v.push_back(Suite("changing-files", "every sequence of 4 operations (write one of 7 contents, some of equal size, always with the same modification time; remove the file; change the buffer size; GET, GET with the last ETag, HEAD) on one keep-alive connection: each answer is the file's current content", 12 * 12 * 12 * 12, [=](Ctx& c, uint64_t r)
	{
		const std::string d = files12(); std::string cur = "first"; bool exists = true; int buffer = 512;
		auto write = [&]() { put(d + "/x.txt", cur); struct timeval t[2] = { { 1000000000, 0 }, { 1000000000, 0 } }; utimes((d + "/x.txt").c_str(), t); exists = true; }; write();
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); h.setBufferSize(buffer); Ask ask("", false); ask.rig.onReady = [&h](Conn* k) { if (!h.handleRequest(k)) k->writeResponse(404); };
		std::string tag, tagged, ops; 
		for (int s = 0; s < 5 && !c.failed(); ++s)
		{
			const int op = s == 4 ? 7 : take(r, 12); ops += "0123456789ab"[op]; static const size_t sizes[] = { 5, 5, 512, 512, 513, 1500, 0 };
			if (op < 7) { cur = ref::text(sizes[op], op); write(); continue; }
			if (op == 10) { unlink((d + "/x.txt").c_str()); exists = false; continue; }
			if (op == 11) { buffer = buffer == 512 ? 600 : 512; h.setBufferSize(buffer); continue; }
			ref::Request q = fileRequest("x.txt", op == 9 ? 1 : 0); if (op == 8 && !tag.empty()) q.h("If-None-Match", tag);
			const size_t at = ask.rig.dev->out.size(); ask.rig.dev->give(q.bytes());
			for (int i = 0; i < 20; ++i) { pump(); if (ask.rig.dev->pending > 0) ask.rig.dev->drain(ask.rig.dev->pending); }
			size_t next; std::string p, t; const bool small = (int)cur.size() <= buffer;
			if (!exists) { ref::Response m; if (!ref::parseResponse(ask.rig.dev->out, at, op == 9, &m, &next) || m.status != 404 || next != ask.rig.dev->out.size()) p = "not 404: " + show(ask.rig.dev->out.substr(at), 200); }
			else if (op == 8 && !tag.empty() && tagged == cur && small) { ref::Response m; if (!ref::parseResponse(ask.rig.dev->out, at, false, &m, &next) || m.status != 304 || next != ask.rig.dev->out.size()) p = "not 304: " + show(ask.rig.dev->out.substr(at), 200); }
			else if (op == 8 && !tag.empty() && tagged == cur) continue; // Whether a large file is validated is open.
			else { p = checkFile(ask.rig.dev->out, at, q, "x.txt", cur, &next, &t); if (p.empty() && next != ask.rig.dev->out.size()) p = "extra output"; if (p.empty() && small) { if (t.empty()) p = "no ETag"; tag = t; tagged = cur; } }
			c.state(hash(hash(5, ops), ask.rig.dev->out));
			if (!p.empty()) c.fail("operations %s: %s", ops.c_str(), p.c_str());
		}
	}, 30));

	v.push_back(Suite("huge-files", "sparse files of 2^31 and 2^32 bytes, one less, a few more, and 2^34 bytes, {HEAD, GET of the first 4 buffers and then the client leaves} x 3 buffer sizes; all of 2^31 + 5 and 2^32 + 7 bytes: announced length, content, bounded memory, next request", 9 * 2 * 3 + 2, [=](Ctx& c, uint64_t r)
	{
		const uint64_t id = r; static const long long sizes[] = { 0x7fffffffLL, 0x80000000LL, 0x80000005LL, 0xffffffffLL, 0x100000000LL, 0x100000007LL, 0x180000000LL, 0x280000000LL, 0x400000000LL };
		const bool all = r < 2; long long size; int buffer; bool head = false; if (all) { size = r ? 0x100000007LL : 0x80000005LL; buffer = 8 << 20; } else { r -= 2; size = sizes[take(r, 9)]; head = take(r, 2); static const int bs[] = { 512, 4096, 524288 }; buffer = bs[take(r, 3)]; }
		const std::string d = files12() + "/huge"; mkdir(d.c_str(), 0755); const std::string name = d + "/h.png"; int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || ftruncate(fd, size - 3) != 0 || lseek(fd, size - 3, SEEK_SET) < 0 || write(fd, "end", 3) != 3) { close(fd); unlink(name.c_str()); c.log("no room"); return; } close(fd);
		Pillow::HttpHandlerFile h(QString::fromUtf8(d.c_str())); h.setBufferSize(buffer); const ref::Request q = fileRequest("h.png", head ? 1 : 0); Fetch f(q, h, buffer); pump(); std::string p; unlink(name.c_str());
		ref::Response m; size_t next = 0; MemDevice* dev = f.dev(); const size_t headEnd = dev->out.find("\r\n\r\n") + 4;
		if (headEnd < 4 || !ref::parseResponse(dev->out, 0, true, &m, &next) || m.status != 200 || ref::value(m.headers, "content-length") != ref::num(size)) p = "content-length is not " + ref::num(size) + ": " + show(dev->out, 200);
		else if (head) { if (next != dev->out.size() || f.ask.rig.order() != "RC") p = "a HEAD request got content, or was not completed"; }
		else
		{
			long long got = dev->out.size() - headEnd; std::string last = dev->out.substr(headEnd); bool zero = true;
			for (int i = 0; got < size && (all || i < 4) && p.empty(); ++i)
			{
				for (size_t k = 0; k < last.size() && zero; k += all ? 4096 : 1) if (last[k]) zero = false;
				dev->out.clear(); dev->drain(dev->pending); pump(); last = dev->out; got += last.size(); c.step(); if (last.empty()) p = "stalled after " + ref::num(got) + " bytes"; if (got > size) p = "too much content";
			}
			if (p.empty() && !zero) p = "wrong content"; if (p.empty() && dev->maxPending > limitOf(buffer)) p = "held " + ref::num(dev->maxPending) + " unsent bytes";
			if (p.empty() && all) { if (got != size || last.substr(last.size() - 3) != "end" || f.ask.rig.order() != "RC") p = "ended after " + ref::num(got) + " bytes, signals " + f.ask.rig.order(); else { dev->out.clear(); dev->drain(dev->pending); dev->give(fileRequest("none", 0).bytes()); pump(); if (dev->out.compare(0, 12, "HTTP/1.1 404") != 0) p = "next request: " + show(dev->out, 100); } }
			if (p.empty() && !all) { dev->close(); pump(); if (f.ask.rig.order() != "RX") p = "signals " + f.ask.rig.order(); }
		}
		c.state(hash(6, id)); if (!p.empty()) c.fail("%lld bytes, buffer %d%s: %s", size, buffer, head ? ", HEAD" : "", p.c_str());
	}, 120));
	return v;
}
