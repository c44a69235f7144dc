// mc: property=P05 flavour=asan,opt
//
// The target side of the debug ARQ protocol (a real DebugArqLayer, with a SegmentationLayer on top), and a client that
// follows the documentation, over a channel that loses messages. All patterns of losses, client resets and request kinds.
#include <libstored/protocol.h>

#include "common/mc.h"

#include <deque>
#include <map>

using mc::Explorer;

namespace {

// Documented encoding of the sequence numbers, written from the documentation.
std::string encodeSeq(uint32_t seq, bool reset)
{
	std::vector<uint8_t> b;
	if(seq < 0x40)
		b = {(uint8_t)seq};
	else if(seq < 0x2000)
		b = {(uint8_t)(0x40 | seq >> 7), (uint8_t)(seq & 0x7f)};
	else if(seq < 0x100000)
		b = {(uint8_t)(0x40 | seq >> 14), (uint8_t)(0x80 | (seq >> 7 & 0x7f)), (uint8_t)(seq & 0x7f)};
	else
		b = {(uint8_t)(0x40 | seq >> 21), (uint8_t)(0x80 | (seq >> 14 & 0x7f)), (uint8_t)(0x80 | (seq >> 7 & 0x7f)),
		     (uint8_t)(seq & 0x7f)};
	if(reset)
		b[0] |= 0x80;
	return std::string((char const*)b.data(), b.size());
}

bool decodeSeq(std::string const& s, uint32_t& seq, bool& reset, size_t& len)
{
	if(s.empty())
		return false;
	reset = s[0] & 0x80;
	seq = s[0] & 0x3f;
	len = 1;
	bool more = s[0] & 0x40;
	while(more) {
		if(len >= 4 || len >= s.size())
			return false;
		more = s[len] & 0x80;
		seq = seq << 7 | (s[len++] & 0x7f);
	}
	return true;
}

uint32_t nextSeq(uint32_t s)
{
	return s >= 0x7ffffff ? 1 : s + 1;
}

struct World;

enum Kind { Write, WriteLong, Read, ReadLong, Late, Overflow, Empty, Kinds };

char const* const kindName[] = {"write", "write, long response", "read", "read, long response", "late purgeable", "overflow",
				"empty response"};

// Executes the requests.
struct App : stored::ProtocolLayer {
	World* w = nullptr;
	void decode(void* buffer, size_t len) override;
	using stored::ProtocolLayer::encode;
};

struct Wire : stored::ProtocolLayer {
	std::deque<std::string> out;
	std::string partial;
	size_t m_mtu = 0;
	World* w = nullptr;
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(last) {
			out.push_back(partial);
			partial.clear();
		}
	}
	size_t mtu() const override
	{
		return m_mtu;
	}
	using stored::ProtocolLayer::encode;
};

struct Req {
	int kind;
	std::string text;
	int executed = 0;
	std::vector<std::string> responses;
};

struct World {
	Explorer& ex;
	size_t maxBuf;
	size_t mtu;
	App app;
	stored::SegmentationLayer seg;
	stored::DebugArqLayer arq;
	Wire wire;
	std::vector<Req> reqs;
	int current = -1; // request the client is doing
	std::string stale; // start of a request that was given up, which arrived at the target

	// The client
	uint32_t seq = 1;	// for the next request
	uint32_t respSeq = 1;	// start of next response
	uint32_t expect = 1;
	bool resp0 = false; // the next response starts at 1 with a reset
	std::string collected;
	bool complete = false;
	bool resetAck = false;
	bool first = true;
	std::map<uint32_t, std::string> respMsgs; // of this request, for the buffered retransmit check
	int losses = 0;

	World(Explorer& e, size_t buf, size_t mtu_)
		: ex(e)
		, maxBuf(buf)
		, mtu(mtu_)
		, arq(buf)
	{
		app.w = this;
		seg.wrap(app);
		arq.wrap(seg);
		wire.w = this;
		wire.m_mtu = mtu;
		wire.wrap(arq);
	}

	bool precious(Req const& r) const
	{
		if(r.kind == Read || r.kind == ReadLong || r.kind == Late)
			return false;
		if(!maxBuf || r.responses.empty())
			return true;
		// All messages of the response fit, including sequence numbers and segmentation.
		return worst(r.responses[0].size()) <= maxBuf;
	}
	size_t worst(size_t n) const
	{
		// seq <= 4, marker 1 per message
		size_t chunk = mtu ? mtu - 5 : n + 1;
		size_t msgs = n / (chunk ? chunk : 1) + 1;
		return n + msgs * 5;
	}

	size_t toTarget(std::string const& m)
	{
		if(ex.flip(true)) {
			ex.trace("  lost: %s", mc::esc(m).c_str());
			losses++;
			return 0;
		}
		ex.trace("  -> %s", mc::esc(m).c_str());
		ex.step();
		std::unique_ptr<char[]> b(new char[m.size()]);
		memcpy(b.get(), m.data(), m.size());
		wire.decode(b.get(), m.size());
		MC_CHECK(ex, "partial", wire.partial.empty(), "%s", mc::esc(wire.partial).c_str());
		if(ex.failed())
			throw mc::Violation();
		return m.size();
	}

	void fromTarget()
	{
		while(!wire.out.empty()) {
			std::string m = wire.out.front();
			wire.out.pop_front();
			MC_CHECK(ex, "mtu", !mtu || m.size() <= mtu, "%zu > %zu", m.size(), mtu);
			uint32_t s;
			bool rst;
			size_t len;
			MC_CHECK(ex, "encoding", decodeSeq(m, s, rst, len), "%s", mc::esc(m).c_str());
			if(m == "\x80") {
				// reset ack
			} else {
				MC_CHECK(ex, "encoding", s > 0, "%s", mc::esc(m).c_str());
				MC_CHECK(ex, "encoding", encodeSeq(s, rst) == m.substr(0, len), "%s", mc::esc(m).c_str());
			}
			if(ex.flip(true)) {
				ex.trace("  lost: <- %s", mc::esc(m).c_str());
				losses++;
				continue;
			}
			ex.trace("  <- %s", mc::esc(m).c_str());
			ex.step();
			if(m == "\x80") {
				resetAck = true;
				continue;
			}
			if(rst) {
				collected.clear();
				complete = false;
				expect = s;
			}
			if(s != expect || complete)
				continue;
			expect = nextSeq(s);
			std::string p = m.substr(len);
			MC_CHECK(ex, "segment", !p.empty(), " ");
			collected += p.substr(0, p.size() - 1);
			if(p.back() == 'E')
				complete = true;
			else
				MC_CHECK(ex, "segment", p.back() == 'C', "%s", mc::esc(p).c_str());
		}
	}

	// Returns false when given up.
	bool request(int kind, size_t chunks, int giveUp)
	{
		Req r;
		r.kind = kind;
		r.text = mc::fmt("%d:%zu", kind, reqs.size());
		while(r.text.size() < chunks)
			r.text += '.';
		reqs.push_back(r);
		current = (int)reqs.size() - 1;
		bool all = true;
		std::string arrived;
		ex.trace("request %d: %s in %zu", current, kindName[kind], chunks);

		std::vector<std::string> msgs;
		uint32_t s = seq;
		for(size_t i = 0; i < chunks; i++) {
			std::string p = encodeSeq(s, false);
			s = nextSeq(s);
			size_t from = r.text.size() * i / chunks;
			size_t to = r.text.size() * (i + 1) / chunks;
			p += r.text.substr(from, to - from);
			p += i + 1 == chunks ? 'E' : 'C';
			msgs.push_back(p);
		}
		complete = false;
		for(int attempt = 0; !complete; attempt++) {
			if(attempt > giveUp) {
				stale = arrived;
				return false;
			}
			if(attempt > 12) {
				ex.note("stuck", mc::fmt("no response to %s after %d losses", kindName[kind], losses));
				throw mc::Violation();
			}
			if(attempt)
				ex.trace(" again");
			collected.clear();
			expect = respSeq;
			for(size_t i = 0; i < msgs.size(); i++) {
				size_t l = toTarget(msgs[i]);
				fromTarget();
				// Payload of what arrived in sequence.
				all &= l > 0;
				if(all && attempt == 0)
					arrived += r.text.substr(r.text.size() * i / chunks,
								 r.text.size() * (i + 1) / chunks - r.text.size() * i / chunks);
				if(all && i + 1 == msgs.size())
					arrived.clear();
			}
		}
		stale.clear();
		seq = s;
		respSeq = expect;
		Req& q = reqs[(size_t)current];
		bool known = false;
		for(auto& x : q.responses)
			known |= x == collected;
		MC_CHECK(ex, "response", known, "%s to request %d (%s), executed %d times", mc::esc(collected).c_str(), current,
			 kindName[kind], q.executed);
		MC_CHECK(ex, "last response", collected == q.responses.back(), "%s", mc::esc(collected).c_str());
		if(precious(q))
			MC_CHECK(ex, "executed", q.executed == 1, "%d times, %s", q.executed, kindName[kind]);
		if(losses == 0)
			MC_CHECK(ex, "executed", q.executed == 1, "%d times, without losses, %s", q.executed, kindName[kind]);
		ex.obs(collected);
		ex.obs((uint64_t)q.executed);
		if(ex.failed())
			throw mc::Violation();
		return true;
	}

	void reset(uint32_t s)
	{
		current = -1;
		resetAck = false;
		ex.trace("reset to %x", s);
		for(int attempt = 0; !resetAck; attempt++) {
			if(attempt > 12) {
				ex.note("stuck", "reset");
				throw mc::Violation();
			}
			collected.clear();
			expect = 0;
			toTarget(encodeSeq(s, true));
			fromTarget();
		}
		seq = nextSeq(s);
		respSeq = 1;
	}
};

void App::decode(void* buffer, size_t len)
{
	std::string s((char const*)buffer, len);
	w->ex.trace("    executes %s", mc::esc(s).c_str());
	if(w->current >= 0 && !w->stale.empty() && s == w->stale + w->reqs[(size_t)w->current].text)
		w->ex.fail("debugarq-reset-partial",
			   mc::fmt("%s executed: the client gave up halfway %s and reset", mc::esc(s).c_str(), mc::esc(w->stale).c_str()));
	if(w->current < 0 || s != w->reqs[(size_t)w->current].text) {
		w->ex.note("request", mc::fmt("%s executed, during request %d", mc::esc(s).c_str(), w->current));
		return;
	}
	Req& r = w->reqs[(size_t)w->current];
	r.executed++;
	std::string a = mc::fmt("%d/%d!", w->current, r.executed);
	switch(r.kind) {
	case Write:
		r.responses.push_back("!");
		encode("!", 1, true);
		break;
	case WriteLong:
		a += "abcdefghijk";
		r.responses.push_back(a);
		encode(a.data(), 3, false);
		encode(a.data() + 3, a.size() - 3, true);
		break;
	case Read:
		r.responses.push_back(a);
		setPurgeableResponse();
		encode(a.data(), a.size(), true);
		break;
	case ReadLong:
		a += "ABCDEFGHIJKLM";
		r.responses.push_back(a);
		setPurgeableResponse();
		for(size_t i = 0; i < a.size(); i++)
			encode(&a[i], 1, i + 1 == a.size());
		break;
	case Late:
		a += "0123456789";
		r.responses.push_back(a);
		encode(a.data(), 4, false);
		setPurgeableResponse();
		encode(a.data() + 4, a.size() - 4, true);
		break;
	case Overflow:
		a += "overflow-overflow-overflow-overflow";
		r.responses.push_back(a);
		encode(a.data(), 10, false);
		encode(a.data() + 10, a.size() - 10, false);
		encode(nullptr, 0, true);
		break;
	case Empty:
		r.responses.push_back("");
		encode(nullptr, 0, true);
		break;
	default:;
	}
}

struct Cfg {
	int requests;
	int losses;
	size_t maxBuf;
	size_t mtu;
};

void requests(Explorer& ex, Cfg const& c)
{
	World w(ex, c.maxBuf, c.mtu);
	for(int i = 0; i < c.requests; i++) {
		int kind = i ? ex.choose(Kinds) : ex.shardChoose(Kinds);
		size_t chunks = 1 + (size_t)ex.choose(3);
		ex.budget(c.losses - w.losses);
		w.request(kind, chunks, 100);
		ex.budget(0);
	}
	w.losses = c.losses + 1;
	w.request(Write, 2, 100);
}

uint32_t const seqs[] = {0, 1, 0x3d, 0x3e, 0x3f, 0x40, 0x1ffd, 0x1ffe, 0x1fff, 0xffffd, 0xffffe, 0xfffff, 0x7fffffb, 0x7fffffc, 0x7fffffd,
			 0x7fffffe, 0x7ffffff};

// Client resets and restarts, also halfway.
void resets(Explorer& ex, Cfg const& c)
{
	World w(ex, c.maxBuf, c.mtu);
	int n = (int)(sizeof(seqs) / sizeof(seqs[0]));
	uint32_t s = seqs[ex.shardChoose(n)];
	for(int i = 0; i < c.requests; i++) {
		int what = ex.choose(3);
		if(what > 0) {
			// Do something before, and possibly give up halfway
			int kind = ex.choose(Kinds);
			ex.budget(c.losses - w.losses);
			w.request(kind, 3, what == 1 ? 100 : 0);
			ex.budget(0);
		}
		ex.budget(c.losses - w.losses);
		w.reset(i ? seqs[(s + (unsigned)i) % (unsigned)n] : s);
		ex.budget(0);
		for(int j = 0; j < 2; j++) {
			int kind = ex.choose(3) * 2;
			ex.budget(c.losses - w.losses);
			w.request(kind, 1 + (size_t)ex.choose(3), 100);
			ex.budget(0);
		}
	}
}

// Many requests: the sequence numbers in the response pass the encoding boundaries.
void longRun(Explorer& ex)
{
	static size_t const start[] = {60, 61, 62, 63, 64, 8186, 8188, 8189, 8190, 8191};
	World w(ex, 30, 9);
	int which = ex.shardChoose(10);
	size_t n = start[which];
	ex.trace("%zu requests before", n);
	bool t = ex.tracing;
	ex.tracing = false;
	for(size_t i = 0; i < n; i++)
		w.request(Write, 1, 100);
	ex.tracing = t;
	for(int i = 0; i < 2; i++) {
		int kind = which < 5 ? ex.choose(Kinds) : i ? ex.choose(2) * 2 : (int)WriteLong + ex.choose(3);
		ex.budget((which < 5 ? 2 : 1) - w.losses);
		w.request(kind, 2, 100);
		ex.budget(0);
	}
}

// Whatever is received; the layer recovers by a reset.
void garbage(Explorer& ex, int depth)
{
	static char const* const msg[] = {"\x80", "\xbf", "\xff", "\xff\xff", "\xff\xff\xff", "\xff\xff\xff\xff", "\xff\xff\xff\x7f",
					  "\x7f\xff\xff\x7f", "\x01", "\x01\x45", "\x01\x43", "\x02\x45", "\x02\x43", "\x00", "\x40",
					  "\x7f", "\xff\xff\xff\xff\xff", "\xc0\x40", "\x40\x01\x45", "\x81\x45", "", "\x03\x45"};
	size_t n = sizeof(msg) / sizeof(msg[0]);
	World w(ex, 16, 9);
	// Anything that is executed is not checked here.
	struct Sink : stored::ProtocolLayer {
		void decode(void*, size_t) override
		{
			encode("?", 1, true);
		}
		using stored::ProtocolLayer::encode;
	} sink;
	stored::SegmentationLayer seg;
	stored::DebugArqLayer arq(16);
	Wire wire;
	seg.wrap(sink);
	arq.wrap(seg);
	wire.m_mtu = 9;
	wire.wrap(arq);
	int from = ex.shardChoose((int)n);
	for(int i = 0; i < depth; i++) {
		std::string m = msg[i ? ex.choose((int)n) : from];
		if(m.empty() && ex.flip())
			m = std::string(1, '\0');
		ex.trace("%s", mc::esc(m).c_str());
		ex.step();
		std::unique_ptr<char[]> b(new char[m.size() ? m.size() : 1]);
		memcpy(b.get(), m.data(), m.size());
		wire.decode(b.get(), m.size());
	}
	wire.out.clear();
	char r[] = {(char)0x85};
	wire.decode(r, 1);
	MC_CHECK(ex, "reset", !wire.out.empty() && wire.out.front() == "\x80", " ");
	wire.out.clear();
	char q[] = {6, 'E'};
	wire.decode(q, 2);
	MC_CHECK(ex, "after reset", wire.out.size() == 1 && wire.out.front() == "\x01?E", "%zu %s", wire.out.size(),
		 wire.out.empty() ? "" : mc::esc(wire.out.front()).c_str());
}

// Wrap around of the sequence numbers in the response.
void wrapResponse(Explorer& ex)
{
	struct Sink : stored::ProtocolLayer {
		size_t n = 0;
		void decode(void*, size_t) override
		{
			setPurgeableResponse();
			for(size_t i = 0; i < n; i++)
				encode("x", 1, true);
		}
		using stored::ProtocolLayer::encode;
	} sink;
	struct Out : stored::ProtocolLayer {
		uint64_t n = 0;
		uint32_t last = 0;
		bool ok = true;
		std::string s;
		void encode(void const* b, size_t len, bool l) override
		{
			s.append((char const*)b, len);
			if(!l)
				return;
			uint32_t q;
			bool r;
			size_t sl;
			if(!decodeSeq(s, q, r, sl) || (q != nextSeq(last)) || r != (n == 0) || s.substr(sl) != "x")
				ok = false;
			last = q;
			n++;
			s.clear();
		}
		using stored::ProtocolLayer::encode;
	} out;
	stored::DebugArqLayer arq;
	arq.wrap(sink);
	out.wrap(arq);
	char m[2] = {1, 'x'};
	sink.n = 0x7fffff0;
	out.decode(m, 2);
	sink.n = (size_t)ex.shardChoose(3) + 15;
	m[0] = 2;
	out.decode(m, 2);
	ex.step(out.n);
	MC_CHECK(ex, "wrap", out.ok, "seq %x", out.last);
}

} // namespace

void mc::setup(bool th)
{
	for(size_t maxBuf : {(size_t)0, (size_t)15, (size_t)32})
		for(size_t mtu : {(size_t)0, (size_t)9, (size_t)6}) {
			Cfg c{2, th ? 4 : 3, maxBuf, mtu};
			if(mtu == 6)
				c.losses--;
			if(slow && mtu)
				c.losses--;
			add(mc::fmt("requests %zu %zu", maxBuf, mtu),
			    mc::fmt("all pairs of requests (%d kinds, 1..3 messages), all patterns of up to %d losses, buffer %zu, mtu %zu", Kinds,
				    c.losses, maxBuf, mtu),
			    Kinds, [=](Explorer& ex) { requests(ex, c); });
		}
	Cfg c3{3, th ? 3 : 1, 32, 9};
	add("requests, 3", mc::fmt("all triples of requests, all patterns of up to %d losses", c3.losses), Kinds,
	    [=](Explorer& ex) { requests(ex, c3); });
	Cfg cr{1, th ? 3 : 2, 32, 9};
	add("reset", mc::fmt("reset to 17 boundary sequence numbers, before/halfway/after all kinds of requests, up to %d losses", cr.losses), 17,
	    [=](Explorer& ex) { resets(ex, cr); });
	if(th) {
		Cfg cr2{2, 1, 32, 9};
		add("reset, 2", "two resets", 17, [=](Explorer& ex) { resets(ex, cr2); });
	}
	if(!slow)
		add("long run", "response sequence numbers at encoding boundaries, all pairs of requests, up to 2 losses", 10, longRun);
	int depth = th ? 5 : 4;
	if(slow)
		depth--;
	add("garbage", mc::fmt("all sequences of %d odd messages, then a reset", depth), 22, [=](Explorer& ex) { garbage(ex, depth); });
	if(!slow && th)
		add("wrap response", "response sequence numbers wrap around at 2^27", 3, wrapResponse);
}

MC_MAIN
