// C24: header collections and protocol helpers against reference definitions.
#include "units.h"
#include "ByteArrayHelpers.h"
#include "HttpHelpers.h"
using namespace mc;
typedef Pillow::HttpHeaderCollection Coll;
typedef Pillow::HttpHeader Head;
using std::string;

static string joined(const ref::Headers& h) { string s; for (size_t i = 0; i < h.size(); ++i) s += "[" + h[i].first + "=" + h[i].second + "]"; return mc::show(s, 300); }
static ref::Headers fromColl(const Coll& c) { ref::Headers h; for (int i = 0; i < c.size(); ++i) h.push_back(ref::Header(sb(c.at(i).first), sb(c.at(i).second))); return h; }

// Every way to look a name (and value) up, compared with the reference.
template <int N> static void lookupToken(Ctx& ctx, const Coll& c, const string& name, const string& expected)
{
	char buf[N]; memcpy(buf, name.data(), N - 1); buf[N - 1] = 0;
	const char (&lit)[N] = buf;
	if (sb(c.getFieldValue(lit)) != expected) ctx.fail("getFieldValue(literal \"%s\") is [%s] instead of [%s]", mc::show(name).c_str(), mc::show(sb(c.getFieldValue(lit))).c_str(), mc::show(expected).c_str());
	bool lower = true; for (size_t i = 0; i < name.size(); ++i) if (name[i] >= 'A' && name[i] <= 'Z') lower = false;
	if (lower && sb(c.getFieldValue(Pillow::LowerCaseToken(lit))) != expected) ctx.fail("getFieldValue(LowerCaseToken(\"%s\")) is [%s] instead of [%s]", mc::show(name).c_str(), mc::show(sb(c.getFieldValue(Pillow::LowerCaseToken(lit)))).c_str(), mc::show(expected).c_str());
	ctx.step();
}

static void lookup(Ctx& ctx, const Coll& c, const ref::Headers& r, const string& name)
{
	const string* f = ref::find(r, name); const string expected = f ? *f : string();
	const QByteArray n = qb(name);
	const QByteArray& v = c.getFieldValue(n);
	if (sb(v) != expected) return ctx.fail("value of '%s' in %s is [%s] instead of [%s]", mc::show(name).c_str(), joined(r).c_str(), mc::show(sb(v)).c_str(), mc::show(expected).c_str());
	if (!f && !v.isNull()) return ctx.fail("value of missing '%s' is not null", mc::show(name).c_str());
	if (sb(c.getFieldValue(name.data(), (int)name.size())) != expected) return ctx.fail("getFieldValue(pointer, length) differs for '%s' in %s", mc::show(name).c_str(), joined(r).c_str());
	switch (name.size()) { case 0: lookupToken<1>(ctx, c, name, expected); break; case 1: lookupToken<2>(ctx, c, name, expected); break; case 2: lookupToken<3>(ctx, c, name, expected); break; case 3: lookupToken<4>(ctx, c, name, expected); break; case 4: lookupToken<5>(ctx, c, name, expected); break; }
	const QVector<QByteArray> all = c.getFieldValues(n);
	std::vector<string> e; for (size_t i = 0; i < r.size(); ++i) if (ref::ieq(r[i].first, name)) e.push_back(r[i].second);
	bool same = all.size() == (int)e.size(); for (size_t i = 0; same && i < e.size(); ++i) same = sb(all.at((int)i)) == e[i];
	if (!same) return ctx.fail("getFieldValues('%s') in %s has %d values instead of %zu, or other ones", mc::show(name).c_str(), joined(r).c_str(), all.size(), e.size());
	ctx.step();
}

static void test(Ctx& ctx, const Coll& c, const ref::Headers& r, const string& name, const string& value)
{
	bool e = false; for (size_t i = 0; i < r.size(); ++i) if (ref::ieq(r[i].first, name) && ref::ieq(r[i].second, value)) e = true;
	if (c.testFieldValue(name.data(), (int)name.size(), value.data(), (int)value.size()) != e || c.testFieldValue(qb(name), qb(value)) != e)
		ctx.fail("testFieldValue('%s', '%s') in %s is not %d", mc::show(name).c_str(), mc::show(value).c_str(), joined(r).c_str(), (int)e);
	ctx.step();
}

static const std::vector<string>& letterForms() // The places in which a byte pair is compared.
{
	static std::vector<string> f; if (f.empty()) { f.push_back("?"); f.push_back("x?"); f.push_back("?Y"); f.push_back("Z?0"); }
	return f;
}
static void letters(Ctx& ctx, uint64_t a)
{
	for (int b = 0; b < 256 && !ctx.failed(); ++b)
		for (size_t f = 0; f < letterForms().size(); ++f)
		{
			string x = letterForms()[f], y = x; x[x.find('?')] = (char)a; y[y.find('?')] = (char)b;
			const bool e = ref::ieq(x, y);
			ref::Headers r; r.push_back(ref::Header("first", "v1")); r.push_back(ref::Header(x, "v2")); r.push_back(ref::Header(y, "v3")); r.push_back(ref::Header("v", x));
			const Coll c = qh(r);
			lookup(ctx, c, r, y); test(ctx, c, r, y, "V2"); test(ctx, c, r, "V", y);
			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(qb(x), qb(y)) != e) ctx.fail("asciiEqualsCaseInsensitive of %s and %s is not %d", mc::show(x).c_str(), mc::show(y).c_str(), (int)e);
			if (!memchr(y.c_str(), 0, y.size()))
			{
				char two[3] = { 0, 0, 0 };
				if (y.size() == 2) { two[0] = y[0]; two[1] = y[1]; if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(qb(x), QLatin1Literal(two)) != e) ctx.fail("asciiEqualsCaseInsensitive of %s and literal %s is not %d", mc::show(x).c_str(), mc::show(y).c_str(), (int)e); }
			}
		}
	ctx.state(hash(1, a)); ctx.log("byte %d against every byte, in names and values", (int)a);
}

static const char* names[] = { "a", "A", "ab", "", "a-b" };
static const char* values[] = { "", "x", "X", "ab" };
enum { NN = 5, NV = 4, NH = NN * NV };
static ref::Headers listOf(uint64_t code, int max) // Every list of up to max headers.
{
	ref::Headers h; uint64_t n = 1; int len = 0;
	while (code >= n) { code -= n; n *= NH; ++len; }
	for (int i = 0; i < len; ++i) { const int k = take(code, NH); h.push_back(ref::Header(names[k % NN], values[k / NN])); }
	return h;
}
static uint64_t listCount(int max) { uint64_t s = 0, n = 1; for (int i = 0; i <= max; ++i, n *= NH) s += n; return s; }
static void lookups(Ctx& ctx, uint64_t root, int max)
{
	const ref::Headers r = listOf(root, max); const Coll c = qh(r);
	static const char* q[] = { "a", "A", "AB", "ab", "", "A-b", "b", "abc" }; static const char* v[] = { "", "x", "X", "AB", "Ab", "a", "y" };
	for (size_t i = 0; i < 8; ++i) { lookup(ctx, c, r, q[i]); for (size_t k = 0; k < 7; ++k) test(ctx, c, r, q[i], v[k]); }
	ctx.state(hash(2, root)); ctx.log("%s", joined(r).c_str());
}

template <int N> static Head raw(const string& s) { char b[N]; memcpy(b, s.data(), N - 1); b[N - 1] = 0; const char (&lit)[N] = b; return Head(lit); }
static Head rawOf(const string& s)
{
	switch (s.size()) { case 0: return raw<1>(s); case 1: return raw<2>(s); case 2: return raw<3>(s); case 3: return raw<4>(s); case 4: return raw<5>(s); case 5: return raw<6>(s); case 6: return raw<7>(s); case 7: return raw<8>(s); default: return raw<9>(s.substr(0, 8)); }
}
static const char rawAlphabet[] = { 'a', ':', ' ', 'B', '\t' };
static void raws(Ctx& ctx, uint64_t root)
{
	uint64_t n = 1; int len = 0; while (root >= n) { root -= n; n *= 5; ++len; }
	string s; for (int i = 0; i < len; ++i) s += rawAlphabet[take(root, 5)];
	const Head h = rawOf(s);
	const size_t colon = s.find(':'); string f = s.substr(0, colon), v = colon == string::npos ? "" : s.substr(colon + 1);
	v.erase(0, v.find_first_not_of(' ') == string::npos ? v.size() : v.find_first_not_of(' '));
	if (sb(h.first) != f || sb(h.second) != v) ctx.fail("HttpHeader(\"%s\") is [%s] = [%s]", mc::show(s).c_str(), mc::show(sb(h.first)).c_str(), mc::show(sb(h.second)).c_str());
	ctx.state(hash(3, s)); ctx.log("\"%s\"", mc::show(s).c_str());
}

// Sequences of operations on three collections, with sharing and aliasing.
static const char* collOps[] = { "x += y", "x << y", "x = x + y", "x += header", "x << header", "x << x[0]", "x += x", "x << x", "x = y", "y = copy, x += copy", "x = x + x", "x.clear()" };
static void collections(Ctx& ctx, int depth)
{
	Coll c[2]; ref::Headers r[2]; Coll held; ref::Headers heldR; int serial = 0;
	auto fresh = [&]() { return ref::Header("N" + ref::num(++serial), "v" + string((size_t)serial * 7 % 40, 'w')); };
	const int start = ctx.choose(4);
	for (int i = 0; i < start; ++i) { const ref::Header h = fresh(); c[i % 2] << Head(qb(h.first), qb(h.second)); r[i % 2].push_back(h); }
	for (int d = 0; d < depth; ++d)
	{
		const int op = ctx.choose(12), x = ctx.choose(2), y = 1 - x; ctx.log("%s (x is %c)", collOps[op], 'A' + x);
		if (op == 5 && r[x].empty()) continue;
		switch (op)
		{
		case 0: c[x] += c[y]; r[x].insert(r[x].end(), r[y].begin(), r[y].end()); break;
		case 1: c[x] << c[y]; r[x].insert(r[x].end(), r[y].begin(), r[y].end()); break;
		case 2: c[x] = c[x] + c[y]; r[x].insert(r[x].end(), r[y].begin(), r[y].end()); break;
		case 3: { const ref::Header h = fresh(); c[x] += Head(qb(h.first), qb(h.second)); r[x].push_back(h); break; }
		case 4: { const ref::Header h = fresh(); c[x] << Head(qb(h.first), qb(h.second)); r[x].push_back(h); break; }
		case 5: c[x] << c[x].at(0); r[x].push_back(r[x][0]); break;
		case 6: { c[x] += c[x]; const ref::Headers t = r[x]; r[x].insert(r[x].end(), t.begin(), t.end()); break; }
		case 7: { c[x] << c[x]; const ref::Headers t = r[x]; r[x].insert(r[x].end(), t.begin(), t.end()); break; }
		case 8: held = c[x]; heldR = r[x]; c[x] = c[y]; r[x] = r[y]; break;
		case 9: { const Coll copy = c[x]; const ref::Headers t = r[x]; c[x] += copy; r[x].insert(r[x].end(), t.begin(), t.end()); held = copy; heldR = t; break; }
		case 10: { c[x] = c[x] + c[x]; const ref::Headers t = r[x]; r[x].insert(r[x].end(), t.begin(), t.end()); break; }
		case 11: c[x].clear(); r[x].clear(); break;
		}
		for (int i = 0; i < 2; ++i) if (fromColl(c[i]) != r[i]) return ctx.fail("after '%s': %c is %s instead of %s", collOps[op], 'A' + i, joined(fromColl(c[i])).c_str(), joined(r[i]).c_str());
		if (fromColl(held) != heldR) return ctx.fail("after '%s': an earlier copy changed to %s from %s", collOps[op], joined(fromColl(held)).c_str(), joined(heldR).c_str());
		ctx.state(hash(hash(4, joined(r[0])), joined(r[1])));
	}
}

template <typename I, int Base> static void number(Ctx& ctx, const QByteArray& prefix, I v, const char* type)
{
	string d; bool neg = v < 0; unsigned __int128 m = neg ? (unsigned __int128)(-((__int128)v)) : (unsigned __int128)v;
	do { d.insert(d.begin(), "0123456789abcdef"[(int)(m % Base)]); m /= Base; } while (m);
	const string e = sb(prefix) + (neg ? "-" : "") + d;
	QByteArray t = prefix; Pillow::ByteArrayHelpers::appendNumber<I, Base>(t, v);
	if (sb(t) != e) ctx.fail("appendNumber<%s, %d>(\"%s\", %s%s) gives \"%s\"", type, Base, prefix.constData(), neg ? "-" : "", d.c_str(), mc::show(sb(t)).c_str());
	ctx.step();
}
static void numbersFor(Ctx& ctx, const QByteArray& p, __int128 v)
{
	if (v >= -2147483648LL && v <= 2147483647LL) { number<int, 10>(ctx, p, (int)v, "int"); number<int, 16>(ctx, p, (int)v, "int"); }
	if (v >= std::numeric_limits<qint64>::min() && v <= std::numeric_limits<qint64>::max()) { number<qint64, 10>(ctx, p, (qint64)v, "qint64"); number<qint64, 16>(ctx, p, (qint64)v, "qint64"); }
	if (v >= 0 && v <= std::numeric_limits<quint64>::max()) { number<quint64, 10>(ctx, p, (quint64)v, "quint64"); number<quint64, 16>(ctx, p, (quint64)v, "quint64"); }
}
enum { NumberBlocks = 64, BlockSize = 2048 };
static void numbers(Ctx& ctx, uint64_t root)
{
	QByteArray p[3]; p[1] = "Content-Length: "; p[2] = "12-";
	if (root < NumberBlocks) { for (int i = 0; i < BlockSize && !ctx.failed(); ++i) { const int v = ((int)root - NumberBlocks / 2) * BlockSize + i; number<int, 10>(ctx, p[i % 3], v, "int"); number<qint64, 10>(ctx, p[i % 3], v, "qint64"); number<int, 16>(ctx, p[i % 3], v, "int"); } ctx.log("block"); }
	else // Neighbourhoods of powers of two and ten, with both signs.
	{
		const int k = (int)root - NumberBlocks; __int128 c = 1; if (k < 64) c = (__int128)1 << k; else for (int i = 0; i < k - 64; ++i) c *= 10;
		for (int s = -1; s <= 1; s += 2) for (int d = -3; d <= 3 && !ctx.failed(); ++d) for (int q = 0; q < 3; ++q) numbersFor(ctx, p[q], s * c + d);
		ctx.log("around +-%s%d", k < 64 ? "2^" : "10^", k < 64 ? k : k - 64);
	}
	ctx.state(hash(5, root));
}

struct St { int code; const char* text; };
static const St statuses[] = { {100,"Continue"},{101,"Switching Protocols"},{200,"OK"},{201,"Created"},{202,"Accepted"},{203,"Non-Authoritative Information"},{204,"No Content"},{205,"Reset Content"},{206,"Partial Content"},
	{300,"Multiple Choices"},{301,"Moved Permanently"},{302,"Found"},{303,"See Other"},{304,"Not Modified"},{305,"Use Proxy"},{307,"Temporary Redirect"},
	{400,"Bad Request"},{401,"Unauthorized"},{403,"Forbidden"},{404,"Not Found"},{405,"Method Not Allowed"},{406,"Not Acceptable"},{407,"Proxy Authentication Required"},{408,"Request Timeout"},{409,"Conflict"},{410,"Gone"},
	{411,"Length Required"},{412,"Precondition Failed"},{413,"Request Entity Too Large"},{414,"Request-URI Too Long"},{415,"Unsupported Media Type"},{416,"Requested Range Not Satisfiable"},{417,"Expectation Failed"},
	{500,"Internal Server Error"},{501,"Not Implemented"},{502,"Bad Gateway"},{503,"Service Unavailable"},{504,"Gateway Timeout"},{505,"HTTP Version Not Supported"} };
static void statusTexts(Ctx& ctx, uint64_t root)
{
	for (int i = 0; i < 4096 && !ctx.failed(); ++i)
	{
		const int code = (int)root * 4096 + i - 16384;
		const char* a = Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(code); const char* m = Pillow::HttpProtocol::StatusCodes::getStatusMessage(code);
		const St* e = 0; for (size_t k = 0; k < sizeof statuses / sizeof *statuses; ++k) if (statuses[k].code == code) e = statuses + k;
		if (e && (!a || !m)) ctx.fail("status %d has no text", code);
		else if (e && (string(a) != ref::num(code) + " " + e->text || string(m) != e->text)) ctx.fail("status %d is '%s' / '%s'", code, a, m);
		else if (!e && (a || m) && (!a || !m || code < 100 || code > 999 || string(a) != ref::num(code) + " " + m)) ctx.fail("status %d is '%s' / '%s'", code, a ? a : "(null)", m ? m : "(null)"); // Codes added to the table.
		ctx.step();
	}
	ctx.state(hash(6, root)); ctx.log("codes %d...", (int)root * 4096 - 16384);
}

static const char* days[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static string httpDate(qint64 secs)
{
	time_t t = (time_t)secs; struct tm m; gmtime_r(&t, &m); char b[64];
	snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", days[m.tm_wday], m.tm_mday, months[m.tm_mon], m.tm_year + 1900, m.tm_hour, m.tm_min, m.tm_sec);
	return b;
}
static void checkDate(Ctx& ctx, qint64 secs)
{
	const string e = httpDate(secs); static const int offsets[] = { 0, 3600, -12600, 50400 };
	for (int form = 0; form < 6 && !ctx.failed(); ++form)
	{
		QDateTime d = form == 0 ? QDateTime::fromMSecsSinceEpoch(secs * 1000, Qt::UTC) : form == 1 ? QDateTime::fromMSecsSinceEpoch(secs * 1000, Qt::LocalTime) : QDateTime::fromMSecsSinceEpoch(secs * 1000 + 999, Qt::OffsetFromUTC, offsets[form - 2]);
		const string got = sb(Pillow::HttpProtocol::Dates::getHttpDate(d));
		if (got != e) ctx.fail("date of %lld (form %d) is '%s' instead of '%s'", (long long)secs, form, got.c_str(), e.c_str());
		ctx.step();
	}
}
static void dates(Ctx& ctx, uint64_t root, int perDay) // One root is one year's days.
{
	const int year = 1900 + (int)root;
	const QDateTime start(QDate(year, 1, 1), QTime(0, 0), Qt::UTC); const qint64 s0 = start.toMSecsSinceEpoch() / 1000; const int n = QDate(year, 1, 1).daysInYear();
	static const int at[] = { 0, 86399, 12 * 3600, 5 * 3600, 5 * 3600 - 1, 7 * 3600 + 1, 23 * 3600 + 59 * 60, 3661 };
	for (int d = 0; d < n && !ctx.failed(); ++d) { for (int k = 0; k < perDay; ++k) checkDate(ctx, s0 + (qint64)d * 86400 + at[(k + d) % 8]); ctx.state(hash(7, (uint64_t)year * 1000 + d)); }
	ctx.log("every day of %d", year);
}
static void times(Ctx& ctx, uint64_t hour) // Every second of a day.
{
	for (int i = 0; i < 3600 && !ctx.failed(); ++i) checkDate(ctx, 1331429400LL / 86400 * 86400 + (qint64)hour * 3600 + i);
	ctx.state(hash(8, hour)); ctx.log("every second of hour %d", (int)hour);
}

static void mime(Ctx& ctx, uint64_t root)
{
	static const char* ext[] = { "html", "jpg", "jpeg", "png", "gif", "css", "js", "xml" }; static const char* type[] = { "text/html", "image/jpeg", "image/jpeg", "image/png", "image/gif", "text/css", "text/javascript", "text/xml" };
	static const char* stem[] = { "", "a", "/dir/file", "a.html", "a.b.c", "/dir.xml/f", "\xc3\xa9", "a.", "a.JS" }; static const char* tail[] = { "", "x", ".", ".bak", "~", " " };
	const int e = take(root, 8), st = take(root, 9), tl = take(root, 6), dot = take(root, 2); const int bits = (int)strlen(ext[e]);
	for (int v = 0; v < (1 << bits) && !ctx.failed(); ++v)
	{
		string x = ext[e]; for (int b = 0; b < bits; ++b) if (v >> b & 1) x[b] = (char)toupper(x[b]);
		const string f = string(stem[st]) + (dot ? "." : "") + x + tail[tl];
		string want = "application/octet-stream", low; for (size_t i = 0; i < f.size(); ++i) low += (char)((unsigned char)f[i] < 128 ? tolower(f[i]) : f[i]);
		for (int k = 0; k < 8; ++k) { const string suffix = string(".") + ext[k]; if (low.size() >= suffix.size() && low.compare(low.size() - suffix.size(), suffix.size(), suffix) == 0) want = type[k]; }
		const string got = Pillow::HttpMimeHelper::getMimeTypeForFilename(QString::fromUtf8(f.data(), (int)f.size()));
		if (got != want) ctx.fail("'%s' has the MIME type %s instead of %s", mc::show(f).c_str(), got.c_str(), want.c_str());
		ctx.step();
	}
	ctx.state(hash(9, root)); ctx.log("%s%s.%s%s", stem[st], dot ? "." : "", ext[e], tail[tl]);
}

static const char pctAlphabet[] = { '%', '2', 'f', 'G', 'a', 'C' };
static string refDecode(const string& s) { return utf8(ref::percentDecode(s)); }
static void percents(Ctx& ctx, uint64_t root, int len)
{
	string s; for (int i = 0; i < len; ++i) s += pctAlphabet[take(root, 6)];
	static const int padTo[] = { 0, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 4096 };
	for (size_t k = 0; k < sizeof padTo / sizeof *padTo && !ctx.failed(); ++k)
	{
		string x = string(padTo[k] > len ? padTo[k] - len : 0, '.') + s;
		if (k % 2) std::rotate(x.begin(), x.begin() + (x.size() > (size_t)len ? x.size() - len : 0), x.end()); // At the front instead.
		if (k % 2 && x.size() > (size_t)len) x += "%41";
		if (!ref::wellEscaped(x)) { Pillow::ByteArrayHelpers::percentDecode(qb(x)); continue; } // Unspecified, but must not read beyond the data.
		const string e = refDecode(x);
		const QByteArray b = qb(x), copy(b.constData(), b.size());
		if (su(Pillow::ByteArrayHelpers::percentDecode(b)) != e) ctx.fail("percentDecode of %s (%zu bytes) is %s", mc::show(x, 60).c_str(), x.size(), mc::show(su(Pillow::ByteArrayHelpers::percentDecode(b)), 60).c_str());
		else if (b != copy) ctx.fail("percentDecode changed its argument");
		ctx.step();
	}
	ctx.state(hash(10, s)); ctx.log("\"%s\" at several lengths", s.c_str());
}

std::vector<Suite> suitesC24(Tier t)
{
	std::vector<Suite> v; const bool th = t == Thorough;
	v.push_back(Suite("letter-case", "every pair of byte values, at 4 places of a name or value, through every lookup, test and comparison function", 256, letters));
	const int L = th ? 4 : 3;
	v.push_back(Suite("lookups", "every list of up to " + ref::num(L) + " headers over 5 names and 4 values; 8 names and 56 name/value pairs looked up in each", listCount(L), [L](Ctx& c, uint64_t r) { lookups(c, r, L); }));
	uint64_t n = 0, p = 1; const int RL = th ? 7 : 6; for (int i = 0; i <= RL; ++i, p *= 5) n += p;
	v.push_back(Suite("raw-literals", "every raw header literal of up to " + ref::num(RL) + " bytes over {a, B, ':', ' ', tab}", n, raws));
	const int D = th ? 4 : 3;
	v.push_back(Suite("collections", "every sequence of " + ref::num(D) + " concatenations, appends, assignments and copies (also of a collection onto itself) on two collections holding 0 to 3 headers at first", 1, [D](Ctx& c, uint64_t) { collections(c, D); }));
	v.push_back(Suite("numbers", "every integer from -65536 to 65535, and the neighbourhood of every power of two and ten up to the limits of int, qint64 and quint64, in bases 10 and 16, appended to 3 prefixes", NumberBlocks + 64 + 20, numbers));
	v.push_back(Suite("status-texts", "every status code from -16384 to 16383", 8, statusTexts));
	const int years = 301, perDay = th ? 8 : 2;
	v.push_back(Suite("dates", "every day of the years 1900 to 2200 at " + ref::num(perDay) + " times of day, given as UTC, local time and 4 offsets", years, [perDay](Ctx& c, uint64_t r) { dates(c, r, perDay); }));
	v.push_back(Suite("times", "every second of a day", 24, times));
	v.push_back(Suite("mime-types", "every letter case of 8 extensions, after 9 stems, with and without the dot, and with 6 tails", 8 * 9 * 6 * 2, mime));
	const int PL = th ? 6 : 5; p = 1; for (int i = 0; i < PL; ++i) p *= 6;
	v.push_back(Suite("percent-decoding", "every string of " + ref::num(PL) + " characters over {%, 2, f, G, a, C}, alone and at either end of texts of 1020 to 4096 bytes", p, [PL](Ctx& c, uint64_t r) { percents(c, r, PL); }));
	return v;
}
