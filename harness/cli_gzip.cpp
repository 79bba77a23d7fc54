// C18: decoding of compressed content by the client.
#include "client.h"
using namespace mc;
using std::string;

struct Body { string name, raw, plain; bool exact; bool valid; Body() : exact(true), valid(true) {} }; // raw: on the wire, plain: what the client must hand out with Content-Encoding: gzip (when exact).

static string zlibForm(const string& s, int window) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, window, 8, Z_DEFAULT_STRATEGY); string o(deflateBound(&z, s.size()) + 20, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }

static std::vector<Body> gzipBodies()
{
	std::vector<Body> v; auto add = [&](const string& n, const string& raw, const string& plain) { Body b; b.name = n; b.raw = raw; b.plain = plain; v.push_back(b); };
	string bytes; for (int i = 0; i < 256; ++i) bytes += (char)i;
	const string hello = "hello, hello compressed world", zeros(100000, 0), big = ref::text(70000, 5), noise = ref::pattern(66000, 3);
	add("empty", gz(""), ""); add("1 byte", gz("x"), "x"); add("short", gz(hello), hello); add("all bytes", gz(bytes), bytes); add("stored", gz(hello, 0), hello); add("fast", gz(big.substr(0, 3000), 1), big.substr(0, 3000));
	add("named", gz(hello, 6, 31, "a file name"), hello); add("named, empty", gz("", 6, 31, "n"), ""); add("long name", gz(hello, 9, 31, string(700, 'n').c_str()), hello); add("small window", gz(big.substr(0, 2000), 6, 16 + 9), big.substr(0, 2000));
	add("two members", gz("first ") + gz("second"), "first second"); add("three members, one empty", gz("a", 6, 31, "nm") + gz("") + gz(bytes, 0), "a" + bytes);
	for (int d = -1; d <= 1; ++d) { add("32768+" + ref::num(d) + " zeros", gz(zeros.substr(0, 32768 + d)), zeros.substr(0, 32768 + d)); add("65536+" + ref::num(d) + " text", gz(big.substr(0, 65536 + d)), big.substr(0, 65536 + d)); }
	add("98304 zeros", gz(zeros.substr(0, 98304)), zeros.substr(0, 98304)); add("100000 zeros", gz(zeros, 9), zeros); add("incompressible", gz(noise), noise); add("incompressible, stored", gz(noise, 0), noise); add("2 MB of zeros", gz(string(2 << 20, 0)), string(2 << 20, 0));
	return v;
}

static std::vector<Body> otherBodies() // Not valid gzip: passed through.
{
	std::vector<Body> v; auto add = [&](const string& n, const string& raw) { Body b; b.name = n; b.raw = b.plain = raw; b.valid = false; v.push_back(b); };
	const string good = gz("hello"); string bad;
	add("plain text", "this is not gzip at all"); add("1f", "\x1f"); add("1f 8b", "\x1f\x8b"); add("1f and text", "\x1fgzip? no"); add("1f 8b and text", "\x1f\x8bgzip? no"); add("magic, then text", "\x1f\x8b\x08 this is not gzip either, certainly not");
	bad = good; bad[2] = 7; add("unknown method", bad); bad = good; bad[3] = (char)0xe0; add("reserved flags", bad); add("header alone", good.substr(0, 10)); add("half a header", good.substr(0, 5)); add("header of a named one, cut", gz("hello", 6, 31, "some file").substr(0, 14));
	add("header, then an invalid block", good.substr(0, 10) + string(20, '\xff')); bad = gz("hello", 6, 31, "nm"); bad[bad.find("a comment") + 2] ^= 1; add("wrong header checksum", bad); add("zlib format", zlibForm("hello hello hello", 15)); add("raw deflate", zlibForm("hello hello hello", -15)); add("zeros", string(50, 0)); add("big text", ref::text(50000, 3));
	return v;
}

static Resp respond(const Body& b, int framing, const string& coding, const string& name = "Content-Encoding")
{
	Resp r; if (!coding.empty()) r.h(name, coding); r.h("X-Other", "1"); const int n = (int)b.raw.size(); std::vector<int> ch;
	switch (framing)
	{
	case 0: r.len(b.raw); break; case 1: if (n) ch.push_back(n); r.chk(b.raw, ch); break; case 2: { int left = n, at = 0; static const int sz[] = { 1, 9, 3, 200, 5000, 40000 }; while (left > 0) { const int k = std::min(left, sz[at++ % 6]); ch.push_back(k); left -= k; } r.chk(b.raw, ch); } break; case 3: r.eof(b.raw); break;
	}
	return r;
}

struct Taker // What the client hands out, in one of several ways.
{
	ClientRig& rig; int mode, n; string got;
	Taker(ClientRig& rig, int mode) : rig(rig), mode(mode), n(0) { rig.onContent = [this]() { ++n; if (this->mode == 1 || (this->mode == 2 && n % 2)) got += sb(this->rig.c->consumeContent()); }; rig.onHeaders = [this]() { n = 0; }; }
	string all() { const string s = got + rig.shots.back().content; got.clear(); return s; }
};

// One response on the connection of d; delivered in the given pieces.
struct Wire
{
	Ctx& ctx; Listener l; ClientRig rig; std::unique_ptr<Peer> peer; bool fresh;
	explicit Wire(Ctx& ctx) : ctx(ctx), fresh(true) {}
	bool ask(const char* method = "GET")
	{
		rig.shots.clear(); rig.events.clear(); rig.c->request(method, url(l.base() + "/gz"));
		if (fresh) { peer.reset(); peer.reset(l.accept()); if (!peer) { ctx.fail("no connection"); return false; } fresh = false; }
		ref::Request q; if (!until([&]() { return takeRequest(*peer, &q); })) { ctx.fail("no request"); return false; }
		return true;
	}
	bool finish(const Resp& r) { if (r.framing == Resp::Eof) { peer->fin(); fresh = true; } if (!until([&]() { return !rig.shots.empty(); })) { ctx.fail("the exchange did not finish"); return false; } if (!r.keepAlive()) fresh = true; return true; }
	bool check(const string& got, const string& want, const Resp& r, const string& what)
	{
		const Shot& s = rig.shots[0];
		if (s.error) { ctx.fail("%s: finished with %s", what.c_str(), errorName(s.error)); return false; }
		if (s.status != r.status || s.headers != r.all()) { ctx.fail("%s: status %d headers %s", what.c_str(), s.status, hdrText(s.headers).c_str()); return false; }
		if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d; ctx.fail("%s: %zu bytes of content instead of %zu, first difference at %zu: [%s] instead of [%s]", what.c_str(), got.size(), want.size(), d, mc::show(got.substr(d), 60).c_str(), mc::show(want.substr(d), 60).c_str()); return false; }
		return true;
	}
};

static std::vector<size_t> cutsOf(const string& s, size_t head, size_t dense)
{
	std::vector<size_t> v; const size_t n = s.size();
	for (size_t i = head > 4 ? head - 4 : 1; i <= n; ++i) if (i - head < dense || n - i < 24 || (n - head) / 7 == 0 || (i - head) % ((n - head) / 7 + 1) == 0) v.push_back(i);
	return v;
}

static void oneSplit(Ctx& ctx, uint64_t root, bool valid, size_t dense)
{
	static const std::vector<Body> good = gzipBodies(), bad = otherBodies(); const std::vector<Body>& all = valid ? good : bad;
	const Body& b = all[take(root, all.size())]; const int framing = take(root, 4), mode = take(root, 3);
	const Resp r = respond(b, framing, "gzip"); const string s = r.bytes(); const std::vector<size_t> cuts = cutsOf(s, r.head().size(), b.raw.size() > 1500 ? dense / 4 : dense);
	static const char* fr[] = { "length", "one chunk", "chunks", "until EOF" }; static const char* md[] = { "read at the end", "consumed at once", "consumed now and then" };
	const string what = b.name + ", " + fr[framing] + ", " + md[mode]; ctx.log("%s, %zu cuts", what.c_str(), cuts.size());
	Wire w(ctx); Taker t(w.rig, mode);
	for (size_t i = 0; i < cuts.size() && !ctx.failed(); ++i)
	{
		if (!w.ask()) return;
		w.peer->give(s.substr(0, cuts[i])); if (cuts[i] < s.size() && !w.rig.shots.empty()) { ctx.fail("%s: finished early", what.c_str()); return; }
		if (cuts[i] < s.size()) w.peer->give(s.substr(cuts[i]));
		if (!w.finish(r)) return;
		w.check(t.all(), b.plain, r, what + ", cut at " + ref::num(cuts[i]) + " (content from " + ref::num(r.head().size()) + ")"); ctx.state(hash(hash(3, what), cuts[i]));
	}
}

static void manySplits(Ctx& ctx, uint64_t root, bool valid)
{
	static const std::vector<Body> good = gzipBodies(), bad = otherBodies(); const std::vector<Body>& all = valid ? good : bad;
	const Body& b = all[take(root, all.size())]; const int framing = take(root, 4), mode = take(root, 3); static const int steps[] = { 1, 2, 3, 7, 18, 100, 1460, 20000 }; static const int buffers[] = { 0, 1, 16, 1000 };
	const Resp r = respond(b, framing, "gzip"); const string s = r.bytes(); Wire w(ctx); Taker t(w.rig, mode);
	for (int k = 0; k < 8 && !ctx.failed(); ++k)
	{
		const size_t step = steps[k]; if (s.size() / step > 600) continue;
		for (int q = 0; q < 4 && !ctx.failed(); ++q)
		{
			if (q && mode != 1) continue; // Limited buffers need consumption.
			if (buffers[q] && s.size() / buffers[q] > 1000) continue;
			w.rig.c->setReadBufferSize(buffers[q]); if (!w.ask()) return;
			const string what = b.name + " framing " + ref::num(framing) + " mode " + ref::num(mode) + " in steps of " + ref::num(step) + ", read buffer of " + ref::num(buffers[q]);
			w.peer->give(s.substr(0, r.head().size() - 2)); for (size_t p = r.head().size() - 2; p < s.size(); p += step) { w.peer->give(s.substr(p, step)); if (p + step < s.size() && !w.rig.shots.empty()) { ctx.fail("%s: finished early", what.c_str()); return; } }
			if (!w.finish(r)) return;
			w.check(t.all(), b.plain, r, what); ctx.state(hash(hash(4, what), k)); ctx.log("%s", what.c_str());
		}
	}
}

static void codings(Ctx& ctx, uint64_t root)
{
	static const struct { const char* coding; const char* name; int decodes; } c[] = { { "", "", 0 }, { "gzip", "Content-Encoding", 1 }, { "GZIP", "content-encoding", 1 }, { "gZip", "CONTENT-ENCODING", 1 }, { "identity", "Content-Encoding", 0 }, { "br", "Content-Encoding", 0 }, { "deflate", "Content-Encoding", 0 }, { "gzi", "Content-Encoding", 0 }, { "gzipp", "Content-Encoding", 0 }, { "", "Content-Encoding", 0 }, { "gzip", "Content-Encodin", 0 }, { "gzip", "X-Content-Encoding", 0 }, { "gzip", "Accept-Encoding", 0 }, { "gzip", "Content-Type", 0 } };
	const int k = take(root, 14), framing = take(root, 4); const std::vector<Body> bodies = gzipBodies(), others = otherBodies(); Wire w(ctx);
	for (size_t i = 0; i < bodies.size() + others.size() && !ctx.failed(); ++i)
	{
		const Body& b = i < bodies.size() ? bodies[i] : others[i - bodies.size()]; if (b.raw.size() > 3000) continue;
		Resp r = respond(b, framing, "", ""); if (*c[k].name) { r = Resp(); Resp t = respond(b, framing, ""); r = t; r.headers.insert(r.headers.begin(), ref::Header(c[k].name, c[k].coding)); r.gaps.insert(r.gaps.begin(), " "); }
		const string what = string(c[k].name) + ": " + c[k].coding + ", " + b.name + ", framing " + ref::num(framing), s = r.bytes(); ctx.log("%s", what.c_str());
		for (int pieces = 0; pieces < 3 && !ctx.failed(); ++pieces)
		{
			if (!w.ask()) return; const size_t cut = pieces == 0 ? s.size() : pieces == 1 ? r.head().size() : r.head().size() + (s.size() - r.head().size()) / 2;
			w.peer->give(s.substr(0, cut)); if (cut < s.size()) w.peer->give(s.substr(cut)); if (!w.finish(r)) return;
			w.check(w.rig.shots[0].content, c[k].decodes ? b.plain : b.raw, r, what); ctx.state(hash(hash(5, what), pieces));
		}
	}
}

enum Step { Good, GoodBig, Plain, PlainGzip, Bogus, BogusShort, Truncated, HeadGz, AbortMid, AbortInSignal, ClosedMid, ClosedHeader, MalformedChunk, Members, NoContent, NSteps };
static const char* stepNames[] = { "gzip", "large gzip", "plain", "plain that looks like gzip", "not gzip although it says so", "the beginning of a gzip header, complete", "gzip that ends early, complete", "HEAD of gzip", "gzip aborted midway", "gzip aborted in contentReadyRead", "gzip, connection closed midway", "gzip, connection closed in its header", "gzip with a malformed chunk", "two members", "204 with the header" };

static void sequences(Ctx& ctx, uint64_t root, int depth)
{
	const std::vector<Body> bodies = gzipBodies(); Wire w(ctx); Client& c = *w.rig.c; string story; uint64_t h = 6;
	for (int i = 0; i < depth && !ctx.failed(); ++i)
	{
		const int step = take(root, NSteps), how = take(root, 2); story += string(i ? ", then " : "") + stepNames[step] + (how ? " (in pieces)" : ""); h = hash(h, step * 2 + how);
		if (!w.ask(step == HeadGz ? "HEAD" : "GET")) return;
		Body b; b.raw = gz("payload " + ref::num(i) + string(300, 'a' + i)); b.plain = "payload " + ref::num(i) + string(300, 'a' + i); string coding = "gzip", want = b.plain; int error = 0; bool checked = true;
		if (step == GoodBig) { b.plain = ref::text(80000, i); b.raw = gz(b.plain); want = b.plain; } if (step == Plain) { b.raw = want = "plain content " + ref::num(i); coding = ""; } if (step == PlainGzip) { want = b.raw; coding = ""; } if (step == Bogus) want = b.raw = "no gzip " + ref::num(i) + string(100, 'n'); if (step == BogusShort) want = b.raw = b.raw.substr(0, 7);
		if (step == Truncated) { b.raw.resize(b.raw.size() - 9); checked = false; } if (step == Members) { b.raw += gz("more"); want += "more"; }
		Resp r = respond(b, step == MalformedChunk ? 1 : how ? 2 : 0, coding); string s = r.bytes();
		if (step == HeadGz) { s = r.head(); want = ""; r.framing = Resp::None; } if (step == NoContent) { r = Resp(); r.st(204, "No Content").h("Content-Encoding", "gzip"); s = r.bytes(); want = ""; }
		const size_t hd = r.head().size(), mid = step == ClosedHeader ? hd + 12 : hd + (s.size() - hd) * 2 / 3;
		w.rig.onContent = nullptr; if (step == AbortInSignal) { error = Client::AbortedError; w.rig.onContent = [&]() { c.abort(); }; }
		if (step == AbortMid) { s.resize(mid); error = Client::AbortedError; } if (step == ClosedMid || step == ClosedHeader) { s.resize(mid); error = Client::RemoteHostClosedError; }
		if (step == MalformedChunk) { s = r.head() + "a\r\n" + b.raw.substr(0, 10) + "\r\nzz\r\n" + b.raw; error = Client::ResponseInvalidError; }
		if (how) { w.peer->give(s.substr(0, hd)); for (size_t p = hd; p < s.size(); p += (s.size() - hd) / 5 + 1) w.peer->give(s.substr(p, (s.size() - hd) / 5 + 1)); } else w.peer->give(s);
		if (step == AbortMid) c.abort(); if (step == ClosedMid || step == ClosedHeader) w.peer->fin();
		if (!until([&]() { return !w.rig.shots.empty(); })) { ctx.fail("did not finish: %s", story.c_str()); return; }
		if (error) { w.fresh = true; if (w.rig.shots[0].error != error) ctx.fail("%s: finished with %s instead of %s", story.c_str(), errorName(w.rig.shots[0].error), errorName(error)); }
		else if (checked) w.check(w.rig.shots[0].content, want, r, story);
		else if (w.rig.shots[0].error) ctx.fail("%s: finished with %s", story.c_str(), errorName(w.rig.shots[0].error));
		ctx.state(h);
	}
	ctx.log("%s", story.c_str());
}

std::vector<Suite> suitesC18(Tier t)
{
	const bool th = t == Thorough; std::vector<Suite> v; const size_t ng = gzipBodies().size(), nb = otherBodies().size(), dense = th ? 400 : 120; const int depth = th ? 3 : 2;
	v.push_back(retried(Suite("valid-one-split", ref::num(ng) + " gzip streams (levels, stored, windows, header fields, several members, sizes around the decoder's 32 KB, up to 2 MB) x {length, one chunk, many chunks, until EOF} x {read at the end, consumed at once, consumed now and then} x every split position (dense at both ends of long ones)", ng * 4 * 3, [dense](Ctx& c, uint64_t r) { oneSplit(c, r, true, dense); }, 240)));
	v.push_back(retried(Suite("invalid-one-split", ref::num(nb) + " contents that are not gzip although labelled so (text, every stage of a broken or incomplete header, other formats) x the same: passed through", nb * 4 * 3, [dense](Ctx& c, uint64_t r) { oneSplit(c, r, false, dense); }, 240)));
	v.push_back(retried(Suite("valid-stepwise", "the same streams x framings x consumption in steps of {1, 2, 3, 7, 18, 100, 1460, 20000} bytes x read buffers of {unlimited, 1, 16, 1000} bytes when consumed at once", ng * 4 * 3, [](Ctx& c, uint64_t r) { manySplits(c, r, true); }, 240)));
	v.push_back(retried(Suite("invalid-stepwise", "the same with contents that are not gzip", nb * 4 * 3, [](Ctx& c, uint64_t r) { manySplits(c, r, false); }, 240)));
	v.push_back(retried(Suite("codings", "14 Content-Encoding spellings, other codings and other header fields x 4 framings x every small content, valid or not, whole or in two pieces: decoded exactly when the coding is gzip", 14 * 4, codings, 240)));
	uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= NSteps * 2;
	v.push_back(retried(Suite("sequences", "every sequence of " + ref::num(depth) + " exchanges of " + ref::num(NSteps) + " kinds (valid, invalid, incomplete, aborted, closed, malformed, ...) on one client, whole or in pieces", n, [depth](Ctx& c, uint64_t r) { sequences(c, r, depth); }, 240)));
	return v;
}
