// mc: property=P15 flavour=asan,dbg,small,dbgc,opt stores=DbgStore
//
// Streams and traces, also when these are compressed: all sequences of application calls and requests.
#include "DbgStore.h"
#include <libstored/debugger.h>
#include <libstored/protocol.h>

#include "common/mc.h"

extern "C" {
#include <heatshrink_decoder.h>
}
#include <map>
#include <memory>

using mc::Explorer;
using C = stored::Config;

namespace {

class Client : public stored::ProtocolLayer {
public:
	size_t frames = 0;
	bool open = false;
	std::string last;
	void encode(void const* b, size_t len, bool l = true) override
	{
		if(!open)
			last.clear();
		last.append((char const*)b, len);
		open = !l;
		frames += l;
	}
	using ProtocolLayer::encode;
};

// A decoder of its own, only used for what comes out of the debugger.
class Decoder {
public:
	heatshrink_decoder* d = heatshrink_decoder_alloc(256, 8, 4);
	std::string out;
	~Decoder()
	{
		heatshrink_decoder_free(d);
	}
	void poll()
	{
		uint8_t b[64];
		HSD_poll_res r;
		do {
			size_t n = 0;
			r = heatshrink_decoder_poll(d, b, sizeof(b), &n);
			out.append((char*)b, n);
		} while(r == HSDR_POLL_MORE);
	}
	void sink(std::string const& s)
	{
		size_t i = 0;
		while(i < s.size()) {
			size_t n = 0;
			heatshrink_decoder_sink(d, (uint8_t*)s.data() + i, s.size() - i, &n);
			i += n;
			poll();
		}
	}
	// The end of the stream. What was only padding, is not output.
	void finish()
	{
		while(heatshrink_decoder_finish(d) == HSDR_FINISH_MORE)
			poll();
	}
};

struct MStream {
	// Accepted since (re)start of the stream.
	std::string data;
	std::unique_ptr<Decoder> dec{new Decoder};
	std::string raw;
	bool flushed = false;

	bool empty() const
	{
		return data.empty();
	}
};

struct Sys {
	Explorer& ex;
	stored::DbgStore store;
	stored::Debugger dbg;
	Client c;
	std::map<char, MStream> m;
	uint8_t counter = 0;
	unsigned dec = 0, cnt = 0;
	char ts = 0;

	explicit Sys(Explorer& e)
		: ex(e)
	{
		dbg.map(store);
		c.wrap(dbg);
	}

	std::string req(std::string r)
	{
		c.frames = 0;
		dbg.decode(&r[0], r.size());
		ex.step();
		ex.trace("%s -> %s", mc::esc(r).c_str(), mc::esc(c.last).c_str());
		MC_CHECK(ex, "one-response", c.frames == 1 && !c.open, "request %s: %zu responses", mc::esc(r).c_str(), c.frames);
		return c.last;
	}

	void expect(std::string const& r, std::string const& e)
	{
		std::string x = req(r);
		MC_CHECK(ex, "response", x == e, "request %s: %s, expected %s", mc::esc(r).c_str(), mc::esc(x).c_str(),
			 mc::esc(e).c_str());
	}

	MStream* alloc(char s)
	{
		auto it = m.find(s);
		if(it != m.end())
			return &it->second;
		if((int)m.size() >= C::DebuggerStreams) {
			auto e = m.begin();
			for(; e != m.end() && !e->second.empty(); ++e)
				;
			if(e == m.end())
				return nullptr;
			m.erase(e);
		}
		return &m[s];
	}

	void app(char s, std::string const& d)
	{
		MStream* x = alloc(s);
		size_t n = dbg.stream(s, d.data(), d.size());
		ex.step();
		ex.trace("stream(%c, %zu bytes) -> %zu", s, d.size(), n);
		MC_CHECK(ex, "accepted", n <= d.size(), "more than offered");
		if(!x) {
			MC_CHECK(ex, "accepted", n == 0, "there is no stream for it");
			return;
		}
		if(x->flushed) {
			// Blocked till it is read. May be refused, but then this should be told.
			MC_CHECK(ex, "blocked", n == 0, "the stream is blocked");
			return;
		}
		if(x->empty())
			MC_CHECK(ex, "accepted", n > 0 && (n == d.size() || n >= C::DebuggerStreamBuffer),
				 "an empty stream accepts only %zu", n);
		x->data += d.substr(0, n);
	}

	void trace()
	{
		ex.trace("trace()");
		ex.step();
		bool due = dec && ++cnt >= dec;
		if(due)
			cnt = 0;
		MStream* x = due ? alloc(ts) : nullptr;
		std::string e;
		bool full = false;
		if(x) {
			stored::Stream<> const* st = constStream(ts);
			size_t size = st ? st->buffer().size() : 0;
			full = size + C::DebuggerStreamBufferOverflow > C::DebuggerStreamBuffer + C::DebuggerStreamBufferOverflow
			       || size >= C::DebuggerStreamBuffer;
			e = mc::fmt("%x,", counter);
		}
		store.b = counter;
		dbg.trace();
		if(x && !x->flushed && !full)
			x->data += e;
		counter++;
	}

	stored::Stream<> const* constStream(char s)
	{
		return static_cast<stored::Debugger const&>(dbg).stream(s);
	}

	void read(char s)
	{
		std::string suffix = "~!";
		std::string r = req(std::string("s") + s + suffix);
		auto it = m.find(s);
		if(it == m.end()) {
			MC_CHECK(ex, "response", r == "?", "%s", mc::esc(r).c_str());
			return;
		}
		MC_CHECK(ex, "suffix", r.size() >= 2 && r.substr(r.size() - 2) == suffix, "%s", mc::esc(r).c_str());
		r.resize(r.size() - 2);
		MStream& x = it->second;
		if(!C::CompressStreams) {
			MC_CHECK(ex, "data", r == x.data, "%s, expected %s", mc::esc(r).c_str(), mc::esc(x.data).c_str());
			x.data.clear();
			return;
		}
		x.dec->sink(r);
		if(x.flushed) {
			x.dec->finish();
			// A few bits of padding do not give output.
			MC_CHECK(ex, "data", x.dec->out == x.data, "decoded %zu bytes: %s, expected %zu: %s", x.dec->out.size(),
				 mc::esc(x.dec->out).c_str(), x.data.size(), mc::esc(x.data).c_str());
			x.data.clear();
			x.dec.reset(new Decoder);
			x.flushed = false;
		} else
			MC_CHECK(ex, "data", x.data.compare(0, x.dec->out.size(), x.dec->out) == 0, "decoded %s, expected the start of %s",
				 mc::esc(x.dec->out).c_str(), mc::esc(x.data).c_str());
	}

	void flush(char s)
	{
		if(!C::CompressStreams)
			return;
		expect(s ? std::string("f") + s : std::string("f"), "!");
		for(auto& x : m)
			if((!s || x.first == s) && !x.second.empty())
				x.second.flushed = true;
	}

	void list()
	{
		std::string e;
		for(auto& x : m)
			if(!x.second.empty())
				e += x.first;
		expect("s", e.empty() ? "?" : e);
	}

	void traceOn(char s, unsigned d)
	{
		bool ok = alloc(s);
		expect(std::string("tM") + s + (d == 1 ? "" : mc::fmt("%x", d)), ok ? "!" : "?");
		dec = ok ? d : 0;
		ts = s;
	}
};

std::string noise(size_t n, unsigned seed)
{
	std::string s;
	uint32_t x = seed * 2654435761u + 1;
	for(size_t i = 0; i < n; i++) {
		x = x * 1664525u + 1013904223u;
		s += (char)(x >> 24);
	}
	return s;
}

void act(Sys& s, int a)
{
	switch(a) {
	case 0:
		s.app('A', "ab");
		break;
	case 1:
		s.app('A', noise(C::DebuggerStreamBuffer * 2 / 3, 1));
		break;
	case 2:
		s.app('A', std::string(300, '\0'));
		break;
	case 3:
		s.app('B', "Hello Hello Hello?");
		break;
	case 4:
		s.app('C', std::string("\xff\0\x1b", 3));
		break;
	case 5:
		s.flush(0);
		break;
	case 6:
		s.flush('A');
		break;
	case 7:
		s.read('A');
		break;
	case 8:
		s.read('B');
		break;
	case 9:
		s.read('C');
		break;
	case 10:
		s.list();
		break;
	case 11:
		s.traceOn('A', 1);
		break;
	case 12:
		s.traceOn('B', 3);
		break;
	case 13:
		s.trace();
		break;
	case 14:
		s.expect("t", "!");
		s.dec = 0;
		break;
	case 15:
		// An atomic flush and retrieve.
		if(!C::CompressStreams)
			break;
		{
			s.expect("mF|fA", "!");
			s.expect("F", "!");
			auto it = s.m.find('A');
			if(it != s.m.end() && !it->second.empty())
				it->second.flushed = true;
			s.expect("mF", "!");
		}
		break;
	default:;
	}
}

constexpr int Acts = 16;

void finish(Sys& s)
{
	// What is read now...
	for(char x : {'A', 'B', 'C'})
		s.read(x);
	s.list();
	// ...and the rest after flushing.
	s.flush(0);
	s.list();
	for(char x : {'A', 'B', 'C'})
		s.read(x);
	s.expect("s", "?");
	// New data is taken, as all is empty.
	for(char x : {'D', 'E', 'A'}) {
		s.app(x, "fresh");
		s.flush(0);
		s.read(x);
	}
	s.expect("s", "?");
}

void sequences(Explorer& ex, int depth)
{
	Sys s(ex);
	s.expect("mM|r/b|e,", "!");
	for(int i = 0; i < depth; i++)
		act(s, i == 0 ? ex.shardChoose(Acts) : ex.choose(Acts));
	finish(s);
}

// Fill a stream till nothing fits, in chunks of every size.
void fill(Explorer& ex)
{
	int kind = ex.shardChoose(4);
	size_t chunk = (size_t)(1 + ex.choose(40));
	if(ex.flip())
		chunk *= 29;
	int reads = ex.choose(3);
	Sys s(ex);
	std::string d = kind == 0 ? std::string(5000, 'x') : kind == 1 ? noise(5000, 7) : std::string();
	while(d.size() < 5000)
		d += kind == 2 ? noise(7, (unsigned)d.size()) + std::string(9, 'z') : mc::fmt("%zu,", d.size());
	size_t p = 0;
	for(int i = 0; i < 400 && p < d.size(); i++) {
		s.app('A', d.substr(p, chunk));
		p += chunk;
		if(reads == 1 && i % 37 == 36)
			s.read('A');
		if(reads == 2 && i % 53 == 52) {
			s.flush('A');
			s.app('A', "blocked");
			s.read('A');
		}
	}
	finish(s);
}

// Traces at all decimations.
void traces(Explorer& ex)
{
	unsigned d = (unsigned)(1 + ex.shardChoose(20));
	Sys s(ex);
	s.expect("mM|r/b|e,", "!");
	s.traceOn('T', d);
	int n = 1 + ex.choose(60);
	int r = 1 + ex.choose(30);
	for(int i = 0; i < n; i++) {
		s.trace();
		if(i % r == r - 1)
			s.read('T');
	}
	unsigned d2 = (unsigned)(1 + ex.choose(3));
	s.traceOn('T', d2);
	for(int i = 0; i < 9; i++)
		s.trace();
	s.flush(0);
	s.read('T');
	s.expect("t", "!");
	s.dec = 0;
	s.trace();
	s.expect("s", "?");
}

} // namespace

void mc::setup(bool t)
{
	mc::add("sequences4", "all sequences of 4 application calls and requests", 8, [](Explorer& ex) { sequences(ex, 4); });
	mc::add("fill", "streams that overflow, in chunks of many sizes, with several kinds of data", 4, fill);
	mc::add("traces", "traces at decimations up to 20, read at many intervals", 8, traces);
	if(!mc::slow || t)
		mc::add("sequences5", "all sequences of 5 application calls and requests", 16, [](Explorer& ex) { sequences(ex, 5); });
	if(t && !mc::slow)
		mc::add("sequences6", "all sequences of 6 application calls and requests", 16, [](Explorer& ex) { sequences(ex, 6); }, false);
}

MC_MAIN
