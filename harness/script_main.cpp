// C23: handlers written in QtScript.
#include "qtlib.h"
#include <memory>
#include <map>
#include <algorithm>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <QtScript/QScriptEngine>
#include "HttpHandlerQtScript.h"
using namespace mc;
using std::string;
typedef Pillow::HttpConnection Conn;

static string scratchFile(const char* n) { const char* s = getenv("MC_SCRATCH"); return string(s ? s : "/tmp") + "/" + ref::num(getpid()) + "-" + n; }
static void put(const string& path, const string& content, long mtime) { int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, content.data(), content.size()) != (ssize_t)content.size()) _exit(77); close(fd); struct timespec t[2] = { { mtime, 0 }, { mtime, 0 } }; utimensat(AT_FDCWD, path.c_str(), t, 0); }

struct Stage // A connection whose requests go to the handler.
{
	std::unique_ptr<Rig> rig; Pillow::HttpHandler* handler; std::vector<int> taken; bool keep; size_t pos;
	Stage() : handler(0), keep(true), pos(0) {}
	void open()
	{
		rig.reset(new Rig); pos = 0; rig->onReady = [this](Conn* c) { const bool t = handler->handleRequest(c); taken.push_back(t); if (!t && c->state() == Conn::SendingHeaders) c->writeResponse(404, Pillow::HttpHeaderCollection(), "declined"); };
		rig->start();
	}
	// "" and the response (status 0: nothing was sent yet), or what is wrong.
	string ask(const ref::Request& q, int* took, ref::Response* m)
	{
		if (!rig || !keep || rig->closed() || rig->conn->state() != Conn::ReceivingHeaders) open();
		pos = rig->dev->out.size(); const size_t before = taken.size(); rig->dev->give(q.bytes());
		if (taken.size() != before + 1) return "harness: the request was not delivered";
		*took = taken.back(); *m = ref::Response(); size_t next = 0; const string& out = rig->dev->out;
		if (out.size() == pos) return "";
		if (!ref::parseResponse(out, pos, q.method == "HEAD", m, &next)) return "not a response: " + mc::show(out.substr(pos), 200);
		if (!m->problem.empty()) return m->problem + " in " + mc::show(out.substr(pos), 200);
		if (m->framing != ref::Response::UntilClose && m->complete && next != out.size()) return "something follows the response: " + mc::show(out.substr(next), 200);
		return "";
	}
};

//
// What the script sees of a request.
//
static const char* const dump =
	"function handle(r) { var s = [], n = ['requestMethod', 'requestUri', 'requestPath', 'requestQueryString', 'requestFragment', 'requestContent'];\n"
	"for (var i = 0; i < n.length; ++i) s.push(n[i] + '=' + typeof r[n[i]] + ':' + r[n[i]]);\n"
	"for (var h in r.requestHeaders) s.push('header ' + h + '=' + r.requestHeaders[h]);\n"
	"for (var p in r.requestQueryParams) s.push('param ' + p + '=' + r.requestQueryParams[p]);\n"
	"r.nativeRequest.writeResponseString(200, { 'Content-Type': 'text/dump', 'X-Script': r.requestMethod }, s.join('\\u0001')); return true; }\n";

static std::vector<ref::Request> shapes()
{
	std::vector<ref::Request> v; ref::Request q;
	static const char* const targets[][3] = { { "/", 0, 0 }, { "/a/b.html", "x=1&y=two", 0 }, { "/sp%20ace/%C3%A9", "k%20ey=v%20al&e=%C3%A9", "frag%20ment" }, { "/pct%2525", "amp=a%26b&eq=a%3Db&pct=100%25&plus=a+b%2Bc&hash=%23&semi=a;b", 0 }, { "/q", "", 0 }, { "/q", "flag&empty=&=novalue&a=b=c", 0 }, { "/n", "0=zero&1=one&length=5&toString=t&constructor=c", 0 }, { "//host/x", "a=1", 0 }, { "/x:y@z", "u=http://h/p?q=r", "f" }, { "/r", "dup=1&dup=2&o=3", 0 }, { "/bad-utf8/%FF%FE", "b=%FF", 0 } };
	static const char* const contents[] = { 0, "", "plain", "a=1&b=%26%20&c=+", "50% off, 100%", "{\"rate\":\"5%41\"}", "\xc3\xa9\xe2\x82\xac", "\xff\xfe bad" };
	for (int t = 0; t < 11; ++t) for (int c = 0; c < 8; ++c)
	{
		q = ref::Request(); q.method = contents[c] ? (c % 2 ? "POST" : "PUT") : t == 1 ? "DELETE" : "GET"; q.path = targets[t][0]; if (targets[t][1]) { q.hasQuery = true; q.query = targets[t][1]; } if (targets[t][2]) { q.hasFragment = true; q.fragment = targets[t][2]; }
		q.h("Host", "example.org:80"); if (t % 3 == 0) q.h("X-Percent", "100%41 50% \xc3\xa9").h("If-None-Match", "\"a%20b\""); if (t % 3 == 1) q.h("lower-case", "v").h("UPPER", "").h("constructor", "c").h("0", "zero"); if (t % 3 == 2) q.h("Multi", "same").h("Multi", "same").h("Cookie", "a=%7B; b=c");
		if (contents[c]) q.content(contents[c]); v.push_back(q);
	}
	q = ref::Request(); q.method = "POST"; q.path = "/nul"; q.content(string("a\0b%00c", 7)); v.push_back(q); q.body = ref::text(50000, 4); q.headers.clear(); q.content(q.body); v.push_back(q);
	for (int n = 1; n <= 130; n += n < 40 ? 1 : 30) // Many fields and parameters, with and without content.
	{
		q = ref::Request(); q.path = "/many"; q.hasQuery = true; for (int i = 0; i < n; ++i) { if (i) q.query += '&'; q.query += "p" + ref::num(i) + "=v%20" + ref::num(i); q.h("X-" + ref::num(i), "value " + ref::num(i)); }
		if (n % 3 == 0) { q.method = "POST"; q.content(ref::text(n * 100, n)); } v.push_back(q);
	}
	for (size_t n = 4090; n < 100000; n = n * 2 + 3) { q = ref::Request(); q.method = "POST"; q.path = "/large"; q.hasQuery = true; q.query = "q=" + ref::text(n < 20000 ? n : 20000, 3); q.content(ref::text(n, 5)); v.push_back(q); }
	return v;
}

static string checkDump(const ref::Request& q, const string& body, const Seen& seen)
{
	std::map<string, string> got; size_t p = 0; std::vector<string> lines;
	while (p <= body.size()) { size_t e = body.find('\1', p); if (e == string::npos) e = body.size(); lines.push_back(body.substr(p, e - p)); p = e + 1; }
	for (size_t i = 0; i < lines.size(); ++i) { const size_t at = lines[i].compare(0, 6, "param ") == 0 || lines[i].compare(0, 7, "header ") == 0 ? lines[i].find('=', 6) : lines[i].find('='); if (at == string::npos) return "harness: dump line " + mc::show(lines[i]); if (!got.insert(std::make_pair(lines[i].substr(0, at), lines[i].substr(at + 1))).second) return "twice: " + mc::show(lines[i]); }
	const Seen e = expected(q, seen); std::map<string, string> want;
	want["requestMethod"] = "string:" + e.method; want["requestUri"] = "string:" + e.uriD; want["requestPath"] = "string:" + e.pathD; want["requestQueryString"] = "string:" + e.queryD; want["requestFragment"] = "string:" + e.fragmentD; want["requestContent"] = "string:" + utf8(e.content);
	for (size_t i = 0; i < e.headers.size(); ++i) want["header " + e.headers[i].first] = utf8(e.headers[i].second);
	std::map<string, std::vector<string> > params; for (size_t i = 0; i < e.params.size(); ++i) if (!e.params[i].first.empty()) params[e.params[i].first].push_back(e.params[i].second);
	for (std::map<string, std::vector<string> >::iterator i = params.begin(); i != params.end(); ++i) { const string k = "param " + i->first; if (!got.count(k) || std::find(i->second.begin(), i->second.end(), got[k]) == i->second.end()) return "the script sees parameter " + mc::show(i->first) + " as [" + mc::show(got[k]) + "] instead of [" + mc::show(i->second[0]) + "]"; want[k] = got[k]; }
	got.erase("param "); // A parameter without a name: not specified.
	for (std::map<string, string>::iterator i = want.begin(); i != want.end(); ++i) if (!got.count(i->first)) return "the script does not see " + mc::show(i->first); else if (got[i->first] != i->second) return "the script sees " + mc::show(i->first) + " as [" + mc::show(got[i->first], 150) + "] instead of [" + mc::show(i->second, 150) + "]";
	for (std::map<string, string>::iterator i = got.begin(); i != got.end(); ++i) if (!want.count(i->first)) return "the script sees " + mc::show(i->first) + ", which is not in the request";
	return "";
}

static void fields(Ctx& ctx, uint64_t root)
{
	const std::vector<ref::Request> qs = shapes(); const int first = take(root, qs.size()), kind = take(root, 2); QScriptEngine engine; std::unique_ptr<Pillow::HttpHandler> h; const string file = scratchFile("dump.js");
	if (kind == 0) { engine.evaluate(dump); h.reset(new Pillow::HttpHandlerQtScript(engine.globalObject().property("handle"))); } else { put(file, dump, 1000000); h.reset(new Pillow::HttpHandlerQtScriptFile(&engine, QString::fromStdString(file), "handle")); }
	Stage s; s.handler = h.get(); const size_t second[] = { (size_t)first, (first * 7 + 13) % qs.size(), (first + 1) % qs.size() };
	for (int k = 0; k < 3 && !ctx.failed(); ++k)
	{
		const ref::Request& q = qs[second[k]]; int took = 0; ref::Response m; ctx.log("%s", mc::show(q.bytes(), 300).c_str()); string e = s.ask(q, &took, &m); const Seen& seen = s.rig->seen.back();
		if (e.empty() && !took) e = "the handler declined"; if (e.empty() && (m.status != 200 || ref::value(m.headers, "content-type") != "text/dump" || ref::value(m.headers, "x-script") != q.method)) e = "the script's response became " + ref::num(m.status) + " " + mc::show(m.body, 200);
		if (e.empty()) e = checkDump(q, m.body, seen); if (!e.empty()) ctx.fail("%s; request %s", e.c_str(), mc::show(q.bytes(), 300).c_str()); ctx.state(hash(hash(23, q.bytes()), kind));
	}
	unlink(file.c_str());
}

//
// What scripts do.
//
enum Outcome23 { Answers, Declines, Takes /* Takes the request without answering it. */, Fails /* 500 */, Partial /* Responds incompletely, takes it. */, Ends /* Closes the connection. */, PartialDeclined, AnswersDeclined, EndsDeclined /* The same, but returning something false. */ };
struct Behaviour { const char* body; int outcome; };
static const Behaviour behaviours[] = {
	{ "r.nativeRequest.writeResponseString(200, {}, 'fine'); return true;", Answers }, { "r.nativeRequest.writeResponse(200, {'X-A': 'b'}, r.nativeRequest.requestContent); return 1;", Answers }, { "r.nativeRequest.writeHeaders(200, {'Content-Length': '4'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent); return 'yes';", Answers }, { "r.nativeRequest.writeHeaders(200, {'Transfer-Encoding': 'chunked'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent); r.nativeRequest.endContent(); return {};", Answers },
	{ "return false;", Declines }, { "return;", Declines }, { "", Declines }, { "return 0;", Declines }, { "return '';", Declines }, { "return null;", Declines }, { "return NaN;", Declines }, { "return true;", Takes }, { "return 7;", Takes }, { "return 'x';", Takes }, { "return [];", Takes }, { "return new Boolean(false);", Takes },
	{ "throw new Error('e');", Fails }, { "throw new TypeError('t');", Fails }, { "throw 'a string';", Fails }, { "throw '';", Fails }, { "throw 0;", Fails }, { "throw 5;", Fails }, { "throw true;", Fails }, { "throw false;", Fails }, { "throw null;", Fails }, { "throw undefined;", Fails }, { "throw { a: 1 };", Fails }, { "throw [1, 2];", Fails }, { "throw function() {};", Fails }, { "throw new Date(0);", Fails },
	{ "throw { toString: function() { throw 'again'; } };", Fails }, { "var o = {}; o.__defineGetter__('x', function() { throw 'getter'; }); throw o;", Fails }, { "undefinedName.x = 1;", Fails }, { "return null.x;", Fails }, { "return (5)();", Fails }, { "function f() { return f() + 1; } return f();", Fails }, { "eval('syntax (');", Fails }, { "return JSON.parse('{') || new RegExp('(');", Fails }, { "return [2, 1].sort(function(a, b) { throw 'in a callback'; });", Fails }, { "try { throw 1; } finally { r.n = 1; }", Fails }, { "with (r) { throw requestPath; }", Fails }, { "try { throw 1; } catch (e) { throw e; }", Fails }, { "r.nativeRequest.noSuchMethod();", Fails }, { "throw new Error(r.requestPath + '\\u20ac%1 %2');", Fails },
	{ "try { throw 1; } catch (e) {} return false;", Declines }, { "try { null.x; } catch (e) { r.nativeRequest.writeResponseString(200, {}, 'fine'); return true; }", Answers }, { "try { throw 'x'; } finally { r.nativeRequest.writeResponseString(200, {}, 'fine'); return true; }", Answers },
	{ "r.nativeRequest.writeResponseString(200, {}, 'fine'); throw 'after';", Answers }, { "r.nativeRequest.writeResponseString(200, {}, 'fine'); throw new Error('after');", Answers }, { "r.nativeRequest.writeHeaders(200, {'Content-Length': '10'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent); throw 'in between';", Partial }, { "r.nativeRequest.writeHeaders(200, {'Content-Length': '10'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent); throw new Error('in between');", Partial },
	{ "r.nativeRequest.writeHeaders(200, {'Content-Length': '10'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent); return false;", PartialDeclined }, { "r.nativeRequest.writeHeaders(200, {'Content-Length': '10'}); r.nativeRequest.writeContent(r.nativeRequest.requestContent);", PartialDeclined }, { "r.nativeRequest.writeResponseString(200, {}, 'fine'); return false;", AnswersDeclined }, { "r.nativeRequest.writeResponseString(200, {}, 'fine');", AnswersDeclined }, { "r.nativeRequest.close(); return 0;", EndsDeclined }, { "r.nativeRequest.close();", EndsDeclined },
	{ "r.nativeRequest.close(); throw 'closed';", Ends }, { "r.nativeRequest.close(); return true;", Ends }, { "old = r.nativeRequest; r.nativeRequest.writeResponseString(200, {}, 'fine'); return true;", Answers }, { "counter = (typeof counter == 'undefined' ? 0 : counter) + 1; if (counter % 2) throw counter; return false;", -1 },
};
static const int NBehaviours = sizeof behaviours / sizeof *behaviours;

static string allBehaviours() { string s = "var all = [];\n"; for (int i = 0; i < NBehaviours; ++i) s += "all.push(function(r) { " + string(behaviours[i].body) + " });\n"; return s + "function handle(r) { return all[parseInt(r.requestPath.substr(1))](r); }\n"; }

static void failures(Ctx& ctx, uint64_t root, bool three)
{
	const int a = take(root, NBehaviours), b = take(root, NBehaviours), kind = take(root, 2), keep = take(root, 2), third = three ? take(root, NBehaviours) : a, elsewhere = three ? 0 : take(root, 2); QScriptEngine engine; std::unique_ptr<Pillow::HttpHandler> h; const string file = scratchFile("all.js");
	if (kind == 0) { engine.evaluate(QString::fromStdString(allBehaviours())); h.reset(new Pillow::HttpHandlerQtScript(engine.globalObject().property("handle"))); } else { put(file, allBehaviours(), 1000000); h.reset(new Pillow::HttpHandlerQtScriptFile(&engine, QString::fromStdString(file), "handle", a % 2 == 0)); }
	Stage s; s.handler = h.get(); s.keep = keep; const int order[] = { a, b, third, 0 }; int counter = 0; string story;
	for (int k = 0; k < 4 && !ctx.failed(); ++k)
	{
		const Behaviour& w = behaviours[order[k]]; ref::Request q; q.method = "POST"; q.path = "/" + ref::num(order[k]); q.h("Host", "h"); q.content("fine"); int took = 0; ref::Response m; story += string(k ? " | " : "") + w.body; ctx.log("%s", w.body); if (elsewhere) { engine.evaluate("throw new Error('elsewhere')"); if (k % 2) engine.evaluate("syntax ("); } string e = s.ask(q, &took, &m);
		int want = w.outcome; if (want == -1) want = ++counter % 2 ? Fails : Declines;
		if (e.empty()) switch (want)
		{
		case Answers: if (!took) e = "the handler declined"; else if (m.status != 200 || m.body != "fine" || (!m.complete && m.framing != ref::Response::UntilClose)) e = "the response is " + ref::num(m.status) + " [" + mc::show(m.body, 100) + "]"; break;
		case Declines: if (took) e = "the handler took the request"; else if (m.status != 404) e = "the response is " + ref::num(m.status); break;
		case Takes: if (!took) e = "the handler declined"; else if (m.status != 0 || s.rig->conn->state() != Conn::SendingHeaders) e = "there is a response: " + ref::num(m.status); break;
		case Fails: if (!took) e = "the handler declined"; else if (m.status != 500) e = m.status ? "the response is " + ref::num(m.status) : string("there is no response"); else if (!m.complete) e = "the response is incomplete"; break;
		case Partial: if (!took) e = "the handler declined"; else if (m.status != 200 || m.body != "fine" || m.complete) e = "the response is " + ref::num(m.status) + " [" + mc::show(m.body, 100) + "]"; break;
		case PartialDeclined: if (took) e = "the handler took the request"; else if (m.status != 200 || m.body != "fine" || m.complete) e = "the response is " + ref::num(m.status) + " [" + mc::show(m.body, 100) + "]"; break;
		case AnswersDeclined: if (took) e = "the handler took the request"; else if (m.status != 200 || m.body != "fine" || !m.complete) e = "the response is " + ref::num(m.status) + " [" + mc::show(m.body, 100) + "]"; break;
		case EndsDeclined: if (took || m.status != 0 || !s.rig->closed()) e = "taken " + ref::num(took) + ", status " + ref::num(m.status) + ", state " + stateName(s.rig->conn->state()); break;
		case Ends: if (!took || m.status != 0 || !s.rig->closed()) e = "taken " + ref::num(took) + ", status " + ref::num(m.status) + ", state " + stateName(s.rig->conn->state()); break;
		}
		if (!e.empty()) ctx.fail("%s; scripts: %s%s", e.c_str(), story.c_str(), elsewhere ? " (after exceptions elsewhere)" : ""); ctx.state(hash(hash(231, story), kind * 4 + keep * 2 + elsewhere));
	}
	unlink(file.c_str());
}

//
// Histories of a script's file.
//
static const char* const scripts[] = { // What becomes of a request: >= 0 answered with that number, -1: 500.
	"function handle(r) { r.nativeRequest.writeResponseString(200, {}, '1'); return true; }\nfunction other(r) { r.nativeRequest.writeResponseString(200, {}, '101'); return true; }\n",
	"var handle = function(r) { r.nativeRequest.writeResponseString(200, {}, '2'); return true; }; var other = function(r) { r.nativeRequest.writeResponseString(200, {}, '102'); return true; }\n",
	"var n = 0; function handle(r) { if (n++ < 0) return false; r.nativeRequest.writeResponseString(200, {}, '3'); return true; } function other(r) { r.nativeRequest.writeResponseString(200, {}, '103'); return true; } var e; e = new Error('just a value');\n",
	"function handle(r { syntax error", "function handle(r) { return true; } function other(r) { return true; } throw new Error('while loading');", "function handle(r) { return true; } function other(r) { return true; } throw 'a string while loading';", "function elsewhere(r) { return true; } var handle = 5; var other = {};", "" };
static int valueOf(int script, bool other) { return script <= 2 ? script + 1 + (other ? 100 : 0) : -1; }

struct FileOf { bool exists; int script; long mtime; int edit; };

static void histories(Ctx& ctx, uint64_t root, int depth)
{
	static const char* const names[] = { "write 1", "write 2", "write 3", "write a syntax error", "write one that throws an error", "write one that throws a string", "write one without the function", "write an empty one", "delete", "put 1 back with an older time", "function name", "file name", "auto-reload", "nothing", "touch" };
	const int initial = take(root, 3), autoAtFirst = take(root, 2), opFirst = take(root, 15); QScriptEngine engine; FileOf f[2]; const string path[2] = { scratchFile("a.js"), scratchFile("b.js") }; long clock = 1000000; int edits = 0; string story;
	for (int i = 0; i < 2; ++i) { f[i].exists = false; f[i].script = 0; f[i].mtime = 0; f[i].edit = ++edits; unlink(path[i].c_str()); }
	auto write = [&](int i, int script, long mtime) { put(path[i], scripts[script], mtime); f[i].exists = true; f[i].script = script; f[i].mtime = mtime; f[i].edit = ++edits; };
	int at = 0; bool other = false, autoReload = autoAtFirst; write(1, 1, clock); if (initial == 1) write(0, 0, clock); else if (initial == 2) write(0, 3, clock);
	Pillow::HttpHandlerQtScriptFile h(&engine, QString::fromStdString(path[0]), "handle", autoReload); Stage s; s.handler = &h;
	// The model: the edit that is loaded (0: none), what it gives; doubt: what a request gives is not specified until the next change that is.
	int loaded = 0, current = -1; long loadedTime = 0; bool stale = true, failedReload = false;
	for (int k = 0; k <= depth && !ctx.failed(); ++k)
	{
		const int op = k == 0 ? 13 : k == 1 ? opFirst : ctx.choose(15); story += string(k ? ", " : "") + names[op]; ctx.log("%s", names[op]);
		if (op <= 7) write(at, op, ++clock);
		else switch (op)
		{
		case 8: unlink(path[at].c_str()); if (f[at].exists) { f[at].exists = false; f[at].edit = ++edits; } break; case 9: write(at, 0, clock - 500 - edits); break; // The time is older than any before.
		case 10: other = !other; h.setFunctionName(other ? "other" : "handle"); stale = true; break; case 11: at = 1 - at; h.setFileName(QString::fromStdString(path[at])); stale = true; break; case 12: autoReload = !autoReload; h.setAutoReload(autoReload); break; case 14: if (f[at].exists) write(at, f[at].script, ++clock); break;
		}
		ref::Request q; q.h("Host", "h"); int took = 0; ref::Response m; string e = s.ask(q, &took, &m); if (!e.empty()) { ctx.fail("%s; %s", e.c_str(), story.c_str()); return; }
		if (!took) { ctx.fail("the handler declined; %s", story.c_str()); return; }
		const int got = m.status == 200 && m.complete ? atoi(m.body.c_str()) : m.status == 500 && m.complete ? -1 : -2; const int fresh = f[at].exists ? valueOf(f[at].script, other) : -1; std::vector<int> allowed;
		const bool changed = loaded != f[at].edit;
		if (stale) allowed.push_back(fresh); // Not loaded yet.
		else if (!autoReload) { allowed.push_back(current); if (failedReload) allowed.push_back(fresh), allowed.push_back(-1); } // A failed reload, then auto-reload off: either.
		else if (!changed && !failedReload) allowed.push_back(current);
		else if (!f[at].exists) { allowed.push_back(current); allowed.push_back(-1); } // Gone after it was loaded: either.
		else allowed.push_back(fresh);
		if (std::find(allowed.begin(), allowed.end(), got) == allowed.end()) { string w; for (size_t i = 0; i < allowed.size(); ++i) w += (i ? " or " : "") + ref::num(allowed[i]); ctx.fail("the request gets %s instead of %s (-1: a 500); %s, auto-reload %s", m.status == 0 ? "no response" : got == -2 ? mc::show(m.body, 60).c_str() : ref::num(got).c_str(), w.c_str(), story.c_str(), autoReload ? "on" : "off"); return; }
		if (got >= 0) { if (got == fresh && (stale || autoReload || failedReload)) { loaded = f[at].edit; failedReload = false; } else if (got != fresh) { /* still the old one */ } current = got; stale = false; }
		else if (!stale) failedReload = true;
		ctx.state(hash(hash(hash(232, story), (uint64_t)got + 5), autoReload));
	}
	unlink(path[0].c_str()); unlink(path[1].c_str());
}

// Handlers without a usable function, engines and connections that are gone.
static void odd(Ctx& ctx, uint64_t root)
{
	const int what = (int)root; std::unique_ptr<QScriptEngine> engine(new QScriptEngine); std::unique_ptr<Pillow::HttpHandlerQtScript> h; bool decline = true; static const char* const good = "(function(r) { r.nativeRequest.writeResponseString(200, {}, 'fine'); return true; })";
	switch (what)
	{
	case 0: h.reset(new Pillow::HttpHandlerQtScript); break; case 1: h.reset(new Pillow::HttpHandlerQtScript(QScriptValue())); break; case 2: h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate("({})"))); break; case 3: h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate("5"))); break;
	case 4: h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate(good))); engine.reset(); break; case 5: h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate(good))); h->setScriptFunction(QScriptValue()); break; case 6: h.reset(new Pillow::HttpHandlerQtScript); h->setScriptFunction(engine->evaluate(good)); decline = false; break; case 7: h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate("(function() { return false; })"))); h->setScriptFunction(engine->evaluate(good)); decline = false; break;
	case 8: { engine->evaluate("throw 'left over by the application';"); h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate(good))); decline = false; break; } case 9: { h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate(good))); engine->evaluate("throw 'left over by the application';"); decline = false; break; }
	case 10: case 11: { // A script keeps a request beyond its connection.
		h.reset(new Pillow::HttpHandlerQtScript(engine->evaluate(what == 10 ? "(function(r) { if (typeof old == 'undefined') { old = r; r.nativeRequest.writeResponseString(200, {}, 'fine'); return true; } old.nativeRequest.writeResponseString(200, {}, 'late'); return true; })" : "(function(r) { if (typeof old == 'undefined') { old = r; r.nativeRequest.writeResponseString(200, {}, 'fine'); return true; } return old.nativeRequest.state + old.requestPath.length > -1 && old.nativeRequest.requestUri.length; })")));
		Stage s; s.handler = h.get(); ref::Request q; int took; ref::Response m; q.h("Host", "h"); string e = s.ask(q, &took, &m); if (!e.empty() || m.body != "fine") { ctx.fail("first: %s", e.c_str()); return; } s.rig.reset(); e = s.ask(q, &took, &m); if (!e.empty() || !took || m.status != 500) ctx.fail("a script failing on a deleted request gives %d %s", m.status, e.c_str()); return; }
	}
	for (int k = 0; k < 3; ++k)
	{
		Stage s; s.handler = h.get(); ref::Request q; int took = -1; ref::Response m; q.h("Host", "h"); const string e = s.ask(q, &took, &m);
		if (!e.empty() || took == decline || (!decline && m.body != "fine")) ctx.fail("case %d: %s, taken %d, status %d [%s]", what, e.c_str(), took, m.status, mc::show(m.body, 60).c_str()); ctx.state(hash(hash(233, what), k));
	}
}

static std::vector<Suite> suitesC23(Tier tier)
{
	const bool t = tier == Thorough; std::vector<Suite> v; const size_t n = shapes().size(); const int depth = t ? 4 : 3;
	v.push_back(Suite("fields", ref::num(n) + " request shapes x function or file, each followed by two others: everything the script sees", n * 2, fields));
	v.push_back(Suite("behaviours", "all pairs of " + ref::num(NBehaviours) + " script behaviours (results, exceptions of every kind, partial responses, closing) and again the first and a good one, x function or file x one connection or several x the engine was left with an exception of other code before each or not", (uint64_t)NBehaviours * NBehaviours * 8, [](Ctx& c, uint64_t r) { failures(c, r, false); }));
	if (t) v.push_back(Suite("behaviours-3", "all triples of the script behaviours, then a good one, x function or file x one connection or several", (uint64_t)NBehaviours * NBehaviours * NBehaviours * 4, [](Ctx& c, uint64_t r) { failures(c, r, true); }));
	v.push_back(Suite("histories", "all histories of " + ref::num(depth) + " of 15 operations (file edits, failures, deletion, older time, touch, name changes, auto-reload) each followed by a request, x 3 initial files x auto-reload", 3 * 2 * 15, [depth](Ctx& c, uint64_t r) { histories(c, r, depth); }));
	v.push_back(Suite("odd", "12 handlers without a usable function, engine or request", 12, odd));
	return v;
}

int main(int argc, char** argv)
{
	std::vector<Property> p; Property x; x.id = "C23"; x.suites = suitesC23;
	x.assumptions.push_back("Requests come through a real HttpConnection on an in-memory QIODevice; scripts run in the real QtScript engine. Scripts that do not end are not explored.");
	x.assumptions.push_back("Memory errors are those AddressSanitizer sees in pillowcore and the harness (Qt itself is not instrumented).");
	x.assumptions.push_back("File times are set explicitly, and differ between two contents of a file.");
	p.push_back(x); return mc::main(argc, argv, p, setupQt);
}
