// mc: property=P02 flavour=asan,opt
//
// All byte streams and all ways to cut them, through the terminal layer.
#include <libstored/protocol.h>

#include "common/mc.h"

#include <memory>

using mc::Explorer;

namespace {

struct Out {
	std::string text;
	std::vector<std::string> msgs;
	// Everything in order, to check the order of text and messages.
	std::string order;
};

class Term : public stored::TerminalLayer {
public:
	Out& o;
	explicit Term(Out& x)
		: o(x)
	{}
	void nonDebugDecode(void* b, size_t len) override
	{
		o.text.append((char const*)b, len);
		o.order.append((char const*)b, len);
	}
	using stored::TerminalLayer::nonDebugEncode;
};

class Sink : public stored::ProtocolLayer {
public:
	Out& o;
	explicit Sink(Out& x)
		: o(x)
	{}
	void decode(void* b, size_t len) override
	{
		o.msgs.emplace_back((char const*)b, len);
		o.order += mc::fmt("<%zu>", o.msgs.size());
	}
};

// What should come out. cutAfter[i]: a chunk ends after byte i.
void reference(std::string const& s, unsigned cuts, Out& o)
{
	bool debug = false;
	std::string m;
	auto text = [&](char c) {
		o.text += c;
		o.order += c;
	};
	for(size_t i = 0; i < s.size(); i++) {
		char c = s[i];
		bool more = i + 1 < s.size();
		if(!debug) {
			if(c == '\x1b' && more && s[i + 1] == '_') {
				// An ESC at the end of what was received so far is handed out, already.
				if(cuts >> i & 1)
					text(c);
				debug = true;
				m.clear();
				i++;
			} else
				text(c);
		} else {
			if(c == '\x1b' && !more)
				break;
			if(c == '\x1b' && s[i + 1] == '\\') {
				o.msgs.push_back(m);
				o.order += mc::fmt("<%zu>", o.msgs.size());
				debug = false;
				i++;
			} else if(c == '\x1b') {
				m += c;
				m += s[++i];
			} else
				m += c;
		}
	}
}

void feed(stored::ProtocolLayer& l, std::string const& s, unsigned cuts)
{
	size_t start = 0;
	for(size_t i = 0; i < s.size(); i++)
		if((cuts >> i & 1) || i + 1 == s.size()) {
			size_t n = i + 1 - start;
			std::unique_ptr<char[]> p(new char[n]);
			memcpy(p.get(), s.data() + start, n);
			l.decode(p.get(), n);
			start = i + 1;
		}
}

void same(Explorer& ex, Out const& o, Out const& r)
{
	MC_CHECK(ex, "messages", o.msgs.size() == r.msgs.size(), "%zu, expected %zu", o.msgs.size(), r.msgs.size());
	for(size_t i = 0; i < o.msgs.size(); i++)
		MC_CHECK(ex, "message", o.msgs[i] == r.msgs[i], "%s, expected %s", mc::esc(o.msgs[i]).c_str(),
			 mc::esc(r.msgs[i]).c_str());
	MC_CHECK(ex, "text", o.text == r.text, "%s, expected %s", mc::esc(o.text).c_str(), mc::esc(r.text).c_str());
	MC_CHECK(ex, "order", o.order == r.order, "%s, expected %s", mc::esc(o.order).c_str(), mc::esc(r.order).c_str());
}

void streams(Explorer& ex, size_t len, std::string const& alphabet)
{
	std::string s;
	int k = (int)alphabet.size();
	int c = ex.shardChoose(k * k);
	s += alphabet[(size_t)(c % k)];
	s += alphabet[(size_t)(c / k)];
	while(s.size() < len)
		s += alphabet[(size_t)ex.choose(k)];
	// All cuts within a single execution; the streams are the choices.
	for(unsigned cuts = 0; cuts < 1u << (len - 1); cuts++) {
		Out o, r;
		Sink sink(o);
		Term t(o);
		t.wrap(sink);
		feed(t, s, cuts);
		reference(s, cuts, r);
		ex.step();
		if(ex.tracing && cuts < 2)
			ex.trace("%s cuts=%u -> %s", mc::esc(s).c_str(), cuts, mc::esc(o.order).c_str());
		try {
			same(ex, o, r);
		} catch(mc::Violation&) {
			ex.trace("%s cuts=%u", mc::esc(s).c_str(), cuts);
			throw;
		}
		if(!cuts)
			ex.obs(o.order);
	}
}

class Wire : public stored::ProtocolLayer {
public:
	std::string stream;
	void encode(void const* b, size_t len, bool) override
	{
		if(len)
			stream.append((char const*)b, len);
	}
	using stored::ProtocolLayer::encode;
};

// Text and messages from a real sender.
void mixed(Explorer& ex, int items, std::string const& alphabet, int maxLen, bool escaped, int maxCuts)
{
	Out so, o, r;
	Sink ssink(so), sink(o);
	stored::AsciiEscapeLayer sa, ra;
	Term st(so), rt(o);
	Wire w;
	if(escaped) {
		sa.wrap(ssink);
		st.wrap(sa);
		ra.wrap(sink);
		rt.wrap(ra);
	} else {
		st.wrap(ssink);
		rt.wrap(sink);
	}
	w.wrap(st);
	int k = (int)alphabet.size();
	bool prevEsc = false;
	for(int i = 0; i < items; i++) {
		bool text = i ? ex.flip() : ex.shardChoose(2);
		int len = ex.choose(maxLen + 1);
		std::string s;
		for(int j = 0; j < len; j++) {
			char c = alphabet[(size_t)ex.choose(k)];
			bool e = s.empty() ? prevEsc : s.back() == '\x1b';
			if(text && e && c == '_')
				ex.prune(); // text has no start of a message
			if(!text && !escaped && c == '\x1b')
				ex.prune(); // not supported without escaping
			s += c;
		}
		if(text) {
			st.nonDebugEncode(s.data(), s.size());
			r.text += s;
			r.order += s;
			if(!s.empty())
				prevEsc = s.back() == '\x1b';
		} else {
			size_t half = (size_t)ex.choose(len + 1);
			ssink.encode(s.data(), half, false);
			ssink.encode(s.data() + half, s.size() - half, true);
			r.msgs.push_back(s);
			r.order += mc::fmt("<%zu>", r.msgs.size());
			prevEsc = false;
		}
		ex.trace("%s %s", text ? "text" : "message", mc::esc(s).c_str());
	}
	// All cuts into at most maxCuts+1 chunks, or byte by byte
	unsigned cuts = 0;
	size_t n = w.stream.size();
	int mode = ex.choose(2);
	if(mode == 1)
		cuts = ~0u;
	else {
		size_t pos = 0;
		for(int i = 0; i < maxCuts && pos + 1 < n && n < 31; i++) {
			size_t c = (size_t)ex.choose((int)(n - pos));
			if(!c)
				break;
			cuts |= 1u << (pos + c - 1);
			pos += c;
		}
	}
	if(n >= 31)
		MC_CHECK(ex, "harness", false, "stream too long: %zu", n);
	// An ESC handed out early, as it was at the end of a chunk.
	Out e;
	reference(w.stream, cuts, e);
	Out plain;
	reference(w.stream, 0, plain);
	feed(rt, w.stream, cuts);
	MC_CHECK(ex, "messages", o.msgs == r.msgs, "%zu, expected %zu", o.msgs.size(), r.msgs.size());
	MC_CHECK(ex, "text", o.text == e.text && plain.text == r.text, "%s, expected %s", mc::esc(o.text).c_str(),
		 mc::esc(r.text).c_str());
	MC_CHECK(ex, "order", o.order == e.order && plain.order == r.order, "%s, expected %s", mc::esc(o.order).c_str(),
		 mc::esc(r.order).c_str());
	ex.step();
	ex.obs(w.stream);
}

// A reset drops a partial frame only.
void resets(Explorer& ex, std::string const& alphabet, size_t len)
{
	Out o, r;
	Sink sink(o);
	Term t(o);
	t.wrap(sink);
	std::string a, b;
	int k = (int)alphabet.size();
	for(size_t i = 0; i < len; i++)
		a += alphabet[(size_t)(i ? ex.choose(k) : ex.shardChoose(k))];
	for(size_t i = 0; i < len; i++)
		b += alphabet[(size_t)ex.choose(k)];
	feed(t, a, 0);
	t.reset();
	feed(t, b, 0);
	reference(a, 0, r);
	Out r2;
	reference(b, 0, r2);
	for(auto& m : r2.msgs)
		r.msgs.push_back(m);
	r.text += r2.text;
	MC_CHECK(ex, "text", o.text == r.text, "%s, expected %s", mc::esc(o.text).c_str(), mc::esc(r.text).c_str());
	MC_CHECK(ex, "messages", o.msgs == r.msgs, "%zu, expected %zu", o.msgs.size(), r.msgs.size());
	ex.step();
	ex.obs(o.order);
	ex.trace("%s reset %s", mc::esc(a).c_str(), mc::esc(b).c_str());
}

} // namespace

void mc::setup(bool thorough)
{
	static std::string const al("\x1b_\\a");
	static std::string const al6("\x1b_\\a\x7f\r");
	for(size_t n = 2; n <= (thorough ? 10u : slow ? 7u : 9u); n++)
		add(mc::fmt("streams %zu", n), "all streams of this length over 4 bytes, all cuts", n > 6 ? 16 : 1,
		    [=](Explorer& ex) { streams(ex, n, al); });
	add("streams 6/6", "all streams of 6 bytes over 6 bytes, all cuts", 8,
	    [=](Explorer& ex) { streams(ex, 6, al6); });
	add("mixed 2", "all pairs of texts and messages of <=3 bytes (escaped), all cuts in <=3 chunks or bytes", 2,
	    [=](Explorer& ex) { mixed(ex, 2, al, thorough ? 3 : 2, true, 2); });
	add("mixed 3", "all triples of texts and messages of <=2 bytes, all cuts in <=2 chunks or bytes", 2,
	    [=](Explorer& ex) { mixed(ex, 3, al6.substr(0, 4), thorough && !slow ? 2 : 1, true, 2); });
	add("mixed 3 unescaped", "all triples of texts and messages (no ESC in them) of <=2 bytes", 2,
	    [=](Explorer& ex) { mixed(ex, 3, al, thorough ? 2 : 1, false, 2); });
	add("reset", "all pairs of streams of 4 bytes with a reset in between", 4,
	    [=](Explorer& ex) { resets(ex, al, 4); });
}

MC_MAIN
