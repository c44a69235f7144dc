// mc: property=P01 flavour=asan
//
// Two mirrored stacks of framing layers, all compositions, messages, splits and MTUs.
#include <libstored/fifo.h>
#include <libstored/protocol.h>

#include "common/mc.h"

#include <deque>
#include <memory>

using mc::Explorer;

namespace {

enum Kind {
	Ascii,
	AsciiAll,
	Terminal,
	Segmentation,
	Crc8,
	Crc16,
	Buffer0,
	Buffer1,
	Buffer2,
	Idle,
	Print,
	Callback,
	KindCount
};
char const* const names[] = {"Ascii", "AsciiAll", "Terminal", "Segm", "Crc8", "Crc16",
			     "Buf",   "Buf1",	  "Buf2",     "Idle", "Print", "Callback"};

bool passthrough(int k)
{
	return k >= Buffer0;
}

typedef std::unique_ptr<stored::ProtocolLayer> Layer;

void nothing2(void*, size_t) {}
void nothing3(void const*, size_t, bool) {}

Layer make(int k, size_t segMtu)
{
	using namespace stored;
	switch(k) {
	case Ascii: return Layer(new AsciiEscapeLayer());
	case AsciiAll: return Layer(new AsciiEscapeLayer(true));
	case Terminal: return Layer(new TerminalLayer());
	case Segmentation: return Layer(new SegmentationLayer(segMtu));
	case Crc8: return Layer(new Crc8Layer());
	case Crc16: return Layer(new Crc16Layer());
	case Buffer0: return Layer(new BufferLayer());
	case Buffer1: return Layer(new BufferLayer(1));
	case Buffer2: return Layer(new BufferLayer(2));
	case Idle: return Layer(new IdleCheckLayer());
	case Print: return Layer(new PrintLayer(nullptr));
	default: {
		auto c = make_callback(nothing2, nothing3);
		return Layer(new decltype(c)(std::move(c)));
	}
	}
}

// What a layer of this kind can carry, at most, if the layer below it carries m.
// 0 is unlimited; -1 is not usable.
long carry(int k, long m, long segMtu)
{
	if(m < 0)
		return -1;
	switch(k) {
	case Ascii:
	case AsciiAll: return m ? (m < 2 ? -1 : m / 2) : 0;
	case Terminal: return m ? (m < 5 ? -1 : m - 4) : 0;
	case Segmentation: {
		long l = m && (!segMtu || m < segMtu) ? m : segMtu;
		return l == 1 ? -1 : 0;
	}
	case Crc8: return m == 0 || m > 257 ? 256 : (m < 2 ? -1 : m - 1);
	case Crc16: return m == 0 || m > 258 ? 256 : (m < 3 ? -1 : m - 2);
	default: return m;
	}
}

class Wire : public stored::ProtocolLayer {
public:
	Explorer& ex;
	size_t m_mtu;
	std::string partial;
	std::vector<std::string> frames;
	stored::ProtocolLayer* peer = nullptr;
	bool check = true;
	bool bytewise = false;

	Wire(Explorer& e, size_t mtu)
		: ex(e)
		, m_mtu(mtu)
	{}
	size_t mtu() const override
	{
		return m_mtu;
	}
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(!last)
			return;
		std::string f = partial;
		partial.clear();
		if(check && m_mtu && f.size() > m_mtu)
			ex.note("mtu", mc::fmt("frame of %zu bytes, mtu %zu", f.size(), m_mtu));
		frames.push_back(f);
		deliver(f);
	}
	void deliver(std::string const& f)
	{
		if(!peer)
			return;
		if(bytewise) {
			for(char c : f) {
				std::unique_ptr<char[]> p(new char[1]);
				p[0] = c;
				peer->decode(p.get(), 1);
			}
			return;
		}
		std::unique_ptr<char[]> p(new char[f.size()]);
		memcpy(p.get(), f.data(), f.size());
		peer->decode(p.get(), f.size());
	}
	void reset() override
	{
		partial.clear();
		stored::ProtocolLayer::reset();
	}
	using stored::ProtocolLayer::encode;
};

class Sink : public stored::ProtocolLayer {
public:
	std::vector<std::string> got;
	void decode(void* b, size_t len) override
	{
		got.emplace_back((char const*)b, len);
	}
};

struct Stack {
	// top first
	Sink sink;
	std::vector<Layer> layers;
	Wire wire;

	Stack(Explorer& ex, std::vector<int> const& kinds, size_t mtu, size_t segMtu)
		: wire(ex, mtu)
	{
		stored::ProtocolLayer* up = &sink;
		for(int k : kinds) {
			layers.push_back(make(k, segMtu));
			layers.back()->wrap(*up);
			up = layers.back().get();
		}
		wire.wrap(*up);
	}
};

void send(stored::ProtocolLayer& top, std::string const& m, unsigned cuts, bool flush)
{
	// cut i: after byte i. If flush, the last flag comes separately.
	size_t start = 0;
	for(size_t i = 0; i + 1 < m.size(); i++)
		if(i < 31 && (cuts >> i & 1)) {
			std::unique_ptr<char[]> p(new char[i + 1 - start]);
			memcpy(p.get(), m.data() + start, i + 1 - start);
			top.encode(p.get(), i + 1 - start, false);
			start = i + 1;
		}
	std::unique_ptr<char[]> p(new char[m.size() - start]);
	memcpy(p.get(), m.data() + start, m.size() - start);
	if(flush) {
		top.encode(p.get(), m.size() - start, false);
		top.encode();
	} else
		top.encode(p.get(), m.size() - start, true);
}

// Can bytes that come into the layer at position i contain an ESC?
// The terminal layer is only specified for data without ESC.
bool escReaches(std::vector<int> const& kinds, size_t i, bool escInMsg)
{
	bool e = escInMsg;
	for(size_t j = 0; j < i; j++) {
		int k = kinds[j];
		if(k == Ascii || k == AsciiAll)
			e = false;
		else if(k == Crc8 || k == Crc16 || k == Terminal)
			e = true;
	}
	return e;
}

bool legal(std::vector<int> const& kinds, bool escInMsg)
{
	for(size_t i = 0; i < kinds.size(); i++)
		if(kinds[i] == Terminal && escReaches(kinds, i, escInMsg))
			return false;
	return true;
}

std::vector<int> chooseKinds(Explorer& ex, int h, bool shard = true)
{
	std::vector<int> kinds;
	if(shard) {
		int n = 1;
		for(int i = 0; i < (h < 2 ? h : 2); i++)
			n *= KindCount;
		int c = h ? ex.shardChoose(n) : 0;
		for(int i = 0; i < (h < 2 ? h : 2); i++) {
			kinds.push_back(c % KindCount);
			c /= KindCount;
		}
	}
	while((int)kinds.size() < h)
		kinds.push_back(ex.choose(KindCount));
	return kinds;
}

std::string descr(std::vector<int> const& kinds)
{
	std::string s;
	for(int k : kinds)
		s += std::string(names[k]) + "/";
	return s;
}

void check(Explorer& ex, Stack& b, std::vector<std::string> const& expect)
{
	auto& got = b.sink.got;
	for(size_t i = 0; i < got.size() && i < expect.size(); i++)
		MC_CHECK(ex, "content", got[i] == expect[i], "message %zu: %s instead of %s", i, mc::esc(got[i]).c_str(),
			 mc::esc(expect[i]).c_str());
	MC_CHECK(ex, "count", got.size() == expect.size(), "%zu messages delivered of %zu", got.size(), expect.size());
	if(ex.failed())
		throw mc::Violation();
}

void single(Explorer& ex, int h, std::string const& alphabet, int maxLen, int msgs, std::vector<size_t> const& segs)
{
	auto kinds = chooseKinds(ex, h);
	bool seg = false;
	for(int k : kinds)
		seg = seg || k == Segmentation;
	size_t segMtu = seg ? segs[(size_t)ex.choose((int)segs.size())] : 0;
	std::vector<std::string> m;
	bool esc = false;
	if(!legal(kinds, false))
		ex.prune();
	Stack a(ex, kinds, 0, segMtu);
	Stack b(ex, kinds, 0, segMtu);
	a.wire.peer = b.layers.empty() ? (stored::ProtocolLayer*)&b.sink : b.layers.back().get();
	a.wire.check = false;
	ex.trace("%s seg=%zu", descr(kinds).c_str(), segMtu);
	for(int n = 0; n < msgs; n++) {
		int len = ex.choose(maxLen + 1);
		std::string s;
		for(int i = 0; i < len; i++)
			s += alphabet[(size_t)ex.choose((int)alphabet.size())];
		if(s.find('\x1b') != s.npos)
			esc = true;
		if(esc && !legal(kinds, true))
			ex.prune();
		unsigned cuts = len > 1 ? (unsigned)ex.choose(1 << (len - 1)) : 0;
		bool flush = ex.flip();
		ex.trace("send %s cuts=%u flush=%d", mc::esc(s).c_str(), cuts, flush);
		m.push_back(s);
		send(a.sink, s, cuts, flush);
		ex.step();
		check(ex, b, m);
	}
	for(auto& f : a.wire.frames)
		ex.obs(f);
}

// MTU: messages of the size that is reported, with contents that expand most.
void mtu(Explorer& ex, int h, std::vector<size_t> const& mtus)
{
	auto kinds = chooseKinds(ex, h);
	if(!legal(kinds, true))
		ex.prune();
	bool seg = false;
	for(int k : kinds)
		seg = seg || k == Segmentation;
	size_t m = mtus[(size_t)ex.choose((int)mtus.size())];
	size_t segMtu = seg ? (size_t[]){0, 5, 300}[ex.choose(3)] : 0;
	long c = (long)m;
	for(size_t i = kinds.size(); i-- > 0;)
		c = carry(kinds[i], c, (long)segMtu);
	if(c < 0)
		ex.prune();
	Stack a(ex, kinds, m, segMtu);
	Stack b(ex, kinds, m, segMtu);
	a.wire.peer = b.layers.empty() ? (stored::ProtocolLayer*)&b.sink : b.layers.back().get();
	size_t top = a.sink.mtu();
	ex.trace("%s mtu=%zu seg=%zu top=%zu", descr(kinds).c_str(), m, segMtu, top);
	if(m)
		MC_CHECK(ex, "mtu", (top == 0) == (c == 0), "reported %zu, expected %ld", top, c);
	MC_CHECK(ex, "mtu", c == 0 || (top > 0 && (long)top <= c), "reported %zu, at most %ld fits", top, c);

	size_t len = 0;
	size_t t = top ? top : (m && m < 40 ? 3 * m : 9);
	switch(ex.choose(3)) {
	case 0: len = t; break;
	case 1: len = t - 1; break;
	default: len = t / 2;
	}
	static char const fill[] = {'\x1b', '\x7f', 'E', 'C', '\0', '\r', 'x'};
	char f = fill[ex.choose(sizeof(fill))];
	if(f == '\x1b' && !legal(kinds, true))
		ex.prune();
	std::string s(len, f);
	if(ex.flip() && len)
		s[len - 1] = 'E';
	int split = ex.choose(4);
	std::vector<std::string> expect;
	for(int rep = 0; rep < 2; rep++) {
		expect.push_back(s);
		if(split == 0 || len < 2)
			send(a.sink, s, 0, false);
		else if(split == 1) {
			send(a.sink, s, 1, false); // after first byte
		} else if(split == 2) {
			a.sink.encode(s.data(), len - 1, false);
			a.sink.encode(s.data() + len - 1, 1, true);
		} else {
			for(size_t i = 0; i < len; i++)
				a.sink.encode(s.data() + i, 1, false);
			a.sink.encode();
		}
		ex.step();
		check(ex, b, expect);
	}
	ex.obs(len * 1000 + (uint64_t)f);
	ex.obs(top);
}

// Requests and responses over the library's own loopback, with nested (re-entrant) responses.
class Echo : public stored::ProtocolLayer {
public:
	std::vector<std::string> got;
	std::vector<std::string> reply;
	void decode(void* b, size_t len) override
	{
		got.emplace_back((char const*)b, len);
		if(!reply.empty()) {
			std::string r = reply.front();
			reply.erase(reply.begin());
			for(size_t i = 0; i < r.size(); i++)
				encode(r.data() + i, 1, false);
			encode();
		}
	}
	using stored::ProtocolLayer::encode;
};

void loopback(Explorer& ex, int h, std::string const& alphabet, int maxLen)
{
	auto kinds = chooseKinds(ex, h);
	if(!legal(kinds, true))
		ex.prune();
	Echo ea, eb;
	std::vector<Layer> la, lb;
	size_t segMtu = (size_t[]){0, 3}[ex.choose(2)];
	auto build = [&](Echo& e, std::vector<Layer>& l) -> stored::ProtocolLayer& {
		stored::ProtocolLayer* up = &e;
		for(int k : kinds) {
			l.push_back(make(k, segMtu));
			up->stack(*l.back());
			up = l.back().get();
		}
		return *up;
	};
	auto& ba = build(ea, la);
	auto& bb = build(eb, lb);
	stored::Loopback lo(ba, bb);
	if(ex.flip())
		lo.reserve((size_t)ex.choose(3));
	// b answers the first message while it is being decoded.
	auto msg = [&]() {
		int len = ex.choose(maxLen + 1);
		std::string s;
		for(int i = 0; i < len; i++)
			s += alphabet[(size_t)ex.choose((int)alphabet.size())];
		return s;
	};
	std::string m0 = msg(), r0 = msg(), m1 = msg();
	eb.reply.push_back(r0);
	ex.trace("%s %s -> %s, %s", descr(kinds).c_str(), mc::esc(m0).c_str(), mc::esc(r0).c_str(), mc::esc(m1).c_str());
	ea.encode(m0.data(), m0.size(), true);
	ea.encode(m1.data(), m1.size(), true);
	ex.step(3);
	MC_CHECK(ex, "count", eb.got.size() == 2 && ea.got.size() == 1, "%zu %zu", eb.got.size(), ea.got.size());
	MC_CHECK(ex, "content", eb.got[0] == m0 && eb.got[1] == m1 && ea.got[0] == r0, "%s %s %s",
		 mc::esc(eb.got[0]).c_str(), mc::esc(ea.got[0]).c_str(), mc::esc(eb.got[1]).c_str());
	ex.obs(m0 + r0 + m1);
}

// Stack surgery.
struct Dyn {
	std::vector<std::pair<int, Layer>> l; // top first
};

void links(Explorer& ex, Sink& top, std::vector<std::pair<int, Layer>>& l, Wire& bottom)
{
	std::vector<stored::ProtocolLayer*> model;
	model.push_back(&top);
	for(auto& x : l)
		model.push_back(x.second.get());
	model.push_back(&bottom);
	for(size_t i = 0; i < model.size(); i++) {
		MC_CHECK(ex, "links", model[i]->up() == (i ? model[i - 1] : nullptr), "up of %zu of %zu", i, model.size());
		MC_CHECK(ex, "links", model[i]->down() == (i + 1 < model.size() ? model[i + 1] : nullptr),
			 "down of %zu of %zu", i, model.size());
		MC_CHECK(ex, "links", &model[i]->top() == &top && &model[i]->bottom() == &bottom, "%zu", i);
		stored::ProtocolLayer const* c = model[i];
		MC_CHECK(ex, "links", &c->top() == &top && &c->bottom() == &bottom, "%zu", i);
	}
}

void surgery(Explorer& ex, int depth)
{
	static std::vector<int> const start[] = {{}, {Ascii, Terminal}, {Segmentation, Crc8}, {Crc16, Ascii, Terminal}};
	auto kinds = start[ex.shardChoose(4)];
	Sink sa, sb;
	Wire wa(ex, 0), wb(ex, 0);
	Dyn a, b;
	auto init = [&](Sink& s, Wire& w, Dyn& d) {
		stored::ProtocolLayer* up = &s;
		for(int k : kinds) {
			Layer n = make(k, 4);
			n->wrap(*up);
			up = n.get();
			d.l.emplace_back(k, std::move(n));
		}
		w.wrap(*up);
	};
	init(sa, wa, a);
	init(sb, wb, b);
	ex.trace("%s", descr(kinds).c_str());
	std::vector<std::string> expect;
	int id = 0;
	for(int d = 0; d < depth; d++) {
		int op = ex.choose(6);
		ex.step();
		bool both = true;
		auto apply = [&](std::function<void(Sink&, Wire&, Dyn&)> f) {
			f(sa, wa, a);
			f(sb, wb, b);
		};
		static int const insertable[] = {Idle, Buffer2, Segmentation, Crc8};
		switch(op) {
		case 0: { // insert one by wrap
			int k = insertable[ex.choose(4)];
			int pos = ex.choose((int)a.l.size() + 1);
			if(k == Crc8) {
				// a checksum between escaping and terminal would break the latter
				auto t = std::vector<int>();
				for(auto& x : a.l)
					t.push_back(x.first);
				t.insert(t.begin() + pos, k);
				if(!legal(t, false))
					ex.prune();
			}
			ex.trace("wrap %s at %d", names[k], pos);
			apply([&](Sink& s, Wire& w, Dyn& y) {
				Layer n = make(k, 4);
				stored::ProtocolLayer& up =
					pos ? *y.l[(size_t)pos - 1].second : (stored::ProtocolLayer&)s;
				stored::ProtocolLayer& r = n->wrap(up);
				MC_CHECK(ex, "links", &r == &w, "wrap() returns the bottom");
				y.l.emplace(y.l.begin() + pos, k, std::move(n));
			});
			break;
		}
		case 1: { // insert one by stack
			int k = insertable[ex.choose(3)];
			int pos = ex.choose((int)a.l.size() + 1);
			ex.trace("stack %s at %d", names[k], pos);
			apply([&](Sink& s, Wire& w, Dyn& y) {
				Layer n = make(k, 4);
				stored::ProtocolLayer& dn =
					pos < (int)y.l.size() ? *y.l[(size_t)pos].second : (stored::ProtocolLayer&)w;
				stored::ProtocolLayer& r = n->stack(dn);
				MC_CHECK(ex, "links", &r == &s, "stack() returns the top");
				y.l.emplace(y.l.begin() + pos, k, std::move(n));
			});
			break;
		}
		case 2: { // insert a stack of two
			int pos = ex.choose((int)a.l.size() + 1);
			bool w_ = ex.flip();
			ex.trace("%s two at %d", w_ ? "wrap" : "stack", pos);
			apply([&](Sink& s, Wire& w, Dyn& y) {
				Layer n0 = make(Idle, 4), n1 = make(Buffer2, 4);
				n1->wrap(*n0);
				stored::ProtocolLayer& up =
					pos ? *y.l[(size_t)pos - 1].second : (stored::ProtocolLayer&)s;
				stored::ProtocolLayer& dn =
					pos < (int)y.l.size() ? *y.l[(size_t)pos].second : (stored::ProtocolLayer&)w;
				if(w_)
					MC_CHECK(ex, "links", &n0->wrap(up) == &w, "bottom");
				else
					MC_CHECK(ex, "links", &n1->stack(dn) == &s, "top");
				y.l.emplace(y.l.begin() + pos, Buffer2, std::move(n1));
				y.l.emplace(y.l.begin() + pos, Idle, std::move(n0));
			});
			break;
		}
		case 3: { // destroy a layer
			if(a.l.empty())
				ex.prune();
			int pos = ex.choose((int)a.l.size());
			auto t = std::vector<int>();
			for(auto& x : a.l)
				t.push_back(x.first);
			t.erase(t.begin() + pos);
			if(!legal(t, false))
				ex.prune();
			ex.trace("destroy %d", pos);
			apply([&](Sink&, Wire&, Dyn& y) { y.l.erase(y.l.begin() + pos); });
			break;
		}
		case 4: {
			int who = ex.choose(3);
			ex.trace("reset %d", who);
			if(who != 1)
				sa.reset();
			if(who != 0)
				sb.reset();
			break;
		}
		default: {
			// partial message dropped by reset of both
			ex.trace("partial+reset");
			std::string s = "pq\x7f";
			sa.encode(s.data(), s.size(), false);
			sa.reset();
			sb.reset();
			break;
		}
		}
		(void)both;
		links(ex, sa, a.l, wa);
		links(ex, sb, b.l, wb);
		wa.peer = wb.up();
		wb.peer = wa.up();
		std::vector<int> t;
		for(auto& x : a.l)
			t.push_back(x.first);
		bool esc = legal(t, true);
		std::string s = mc::fmt("m%d", id++) + (esc ? "\x1b\x7f\r"
							    : "E\x7f\r")
				+ (id % 2 ? "E" : "_\\C");
		expect.push_back(s);
		send(sa, s, (unsigned)id & 0x15, id % 3 == 0);
		MC_CHECK(ex, "count", sb.got.size() == expect.size(), "%zu", sb.got.size());
		MC_CHECK(ex, "content", sb.got.back() == s, "%s", mc::esc(sb.got.back()).c_str());
		send(sb, s, (unsigned)id, false);
		MC_CHECK(ex, "count", sa.got.size() == expect.size(), "%zu", sa.got.size());
		MC_CHECK(ex, "content", sa.got.back() == s, "%s", mc::esc(sa.got.back()).c_str());
		uint64_t h = (uint64_t)d;
		for(int k : t)
			h = mc::mix(h, (uint64_t)k);
		ex.state(h);
		ex.obs(h);
	}
}

// The fifo loopback as transport.
template <size_t Cap>
void fifoLoopback(Explorer& ex, int h, std::string const& alphabet, int maxLen)
{
	auto kinds = chooseKinds(ex, h);
	if(!legal(kinds, true))
		ex.prune();
	Sink sa, sb;
	std::vector<Layer> la, lb;
	auto build = [&](Sink& e, std::vector<Layer>& l) -> stored::ProtocolLayer& {
		stored::ProtocolLayer* up = &e;
		for(int k : kinds) {
			l.push_back(make(k, 0));
			l.back()->wrap(*up);
			up = l.back().get();
		}
		return *up;
	};
	stored::FifoLoopback<Cap, 64> lo;
	auto& ba = build(sa, la);
	auto& bb = build(sb, lb);
	lo.a().wrap(ba);
	lo.b().wrap(bb);
	std::vector<std::string> expect;
	long c = Cap;
	for(size_t i = kinds.size(); i-- > 0;)
		c = carry(kinds[i], c, 0);
	if(c < 0)
		ex.prune();
	size_t top = sa.mtu();
	MC_CHECK(ex, "mtu", (long)top <= c, "%zu", top);
	ex.trace("%s", descr(kinds).c_str());
	for(int i = 0; i < 2; i++) {
		int len = ex.choose(maxLen + 1);
		std::string s;
		for(int j = 0; j < len; j++)
			s += alphabet[(size_t)ex.choose((int)alphabet.size())];
		if(i && top && top <= Cap && ex.flip()) {
			while(lo.a2b().recv() == 0)
				;
			s = std::string(top, '\x7f');
		}
		send(sa, s, 1, false);
		expect.push_back(s);
		if(i || ex.flip())
			while(lo.a2b().recv() == 0)
				;
	}
	while(lo.a2b().recv() == 0)
		;
	MC_CHECK(ex, "error", lo.a2b().lastError() == 0, "%d", lo.a2b().lastError());
	MC_CHECK(ex, "count", sb.got.size() == 2, "%zu", sb.got.size());
	MC_CHECK(ex, "content", sb.got == expect, "%s", mc::esc(sb.got[1]).c_str());
	ex.step(2);
	ex.obs(expect[0] + expect[1]);
}

} // namespace

void mc::setup(bool thorough)
{
	static std::string const full("\x1b\x7f" "E\\_C\r\0A\x11\xff", 11);
	static std::string const some("\x1b\x7f" "E\\", 4);
	for(int h = 0; h <= 2; h++)
		add(mc::fmt("single h%d", h), "all stacks, all messages of <=2 bytes over 11 bytes, all splits", h == 2 ? 16 : 1,
		    [=](Explorer& ex) { single(ex, h, full, 2, 1, {0, 2, 3}); });
	add("single h3", "all stacks of 3 layers, all messages of <=2 bytes over 4 bytes, all splits", 16,
	    [=](Explorer& ex) { single(ex, 3, some, thorough ? 3 : 2, 1, {0, 2, 3}); });
	add("sequence h2", "all stacks of 2 layers, 3 messages of <=1 byte / 2 of <=2", 16, [=](Explorer& ex) {
		if(thorough)
			single(ex, 2, some, 2, 3, {0, 2, 4});
		else
			single(ex, 2, some, 2, 2, {2, 4});
	});
	for(int h = 1; h <= 2; h++)
		add(mc::fmt("mtu h%d", h), "all stacks, all mtus 0..24 and 253..260, boundary lengths, worst-case contents",
		    h == 2 ? 16 : 1, [=](Explorer& ex) {
			    std::vector<size_t> m;
			    for(size_t i = 0; i <= 24; i++)
				    m.push_back(i);
			    for(size_t i = 253; i <= 260; i++)
				    m.push_back(i);
			    mtu(ex, h, m);
		    });
	add("mtu h3", "all stacks of 3 layers, selected mtus, boundary lengths, worst-case contents", 16, [=](Explorer& ex) {
		if(thorough) {
			std::vector<size_t> m;
			for(size_t i = 0; i <= 30; i++)
				m.push_back(i);
			mtu(ex, 3, m);
		} else
			mtu(ex, 3, {7, 12, 13, 258});
	});
	for(int h = 1; h <= 2; h++) {
		add(mc::fmt("loopback h%d", h), "all stacks on the library's Loopback, all message triples, re-entrant",
		    h == 2 ? 16 : 1, [=](Explorer& ex) { loopback(ex, h, some, thorough || h == 1 ? 2 : 1); });
		add(mc::fmt("fifo loopback h%d", h), "all stacks on FifoLoopback", h == 2 ? 16 : 1,
		    [=](Explorer& ex) { fifoLoopback<48>(ex, h, some, thorough || h == 1 ? 2 : 1); });
	}
	add("surgery", "insert (wrap/stack, one or two layers), destroy, reset; all sequences", 4,
	    [=](Explorer& ex) { surgery(ex, thorough ? 4 : 3); });
	if(thorough)
		add("single h4", "all stacks of 4 layers", 32, [=](Explorer& ex) { single(ex, 4, some, 1, 2, {2}); });
}

MC_MAIN
