// Compression: all short messages and structured long ones, in all chunkings and sequences.
// mc: property=P25 flavour=asan,opt
#include "common/mc.h"
#include <memory>
#include <stored>
#include <string>
#include <vector>

using mc::Explorer;

namespace {

// Below the compressor: collects complete messages.
class Wire : public stored::ProtocolLayer {
public:
	std::vector<std::string> messages;
	std::string cur;
	int ends = 0;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		cur.append((char const*)buffer, len);
		if(last) {
			messages.push_back(cur);
			cur.clear();
			ends++;
		}
	}
	using ProtocolLayer::encode;
};

// Above the decompressor.
class Top : public stored::ProtocolLayer {
public:
	std::vector<std::string> messages;
	void decode(void* buffer, size_t len) override
	{
		messages.emplace_back((char const*)buffer, len);
	}
};

// A copy without any spare bytes, as a layer may change the buffer.
void decode(stored::ProtocolLayer& l, std::string const& s)
{
	std::unique_ptr<char[]> b(new char[s.size()]);
	memcpy(b.get(), s.data(), s.size());
	l.decode(b.get(), s.size());
}

void send(Explorer& ex, stored::CompressLayer& c, std::string const& m, int chunking)
{
	auto enc = [&](size_t from, size_t n, bool last) {
		std::unique_ptr<char[]> b(new char[n]);
		memcpy(b.get(), m.data() + from, n);
		ex.trace("encode %zu bytes%s", n, last ? ", last" : "");
		c.encode(b.get(), n, last);
	};
	switch(chunking) {
	case 0: enc(0, m.size(), true); break;
	case 1:
		enc(0, m.size(), false);
		MC_CHECK(ex, "busy", !c.idle(), "idle while encoding");
		c.encode();
		break;
	case 2:
		for(size_t i = 0; i < m.size(); i++)
			enc(i, 1, i + 1 == m.size());
		break;
	case 3:
		enc(0, m.size() / 2, false);
		enc(m.size() / 2, m.size() - m.size() / 2, true);
		break;
	default: {
		size_t n = (size_t)chunking;
		for(size_t i = 0; i < m.size(); i += n)
			enc(i, std::min(n, m.size() - i), false);
		c.encode(nullptr, 0, true);
	}
	}
}

void check(Explorer& ex, Wire& w, stored::CompressLayer& dec, Top& top, std::string const& m, char const* what)
{
	MC_CHECK(ex, "wire-messages", w.messages.size() == 1, "%s: %zu messages on the wire", what, w.messages.size());
	std::string e = w.messages[0];
	w.messages.clear();
	top.messages.clear();
	decode(dec, e);
	MC_CHECK(ex, "idle", dec.idle(), "%s: decoder not idle", what);
	MC_CHECK(ex, "restored", top.messages.size() == 1 && top.messages[0] == m, "%s: %s becomes %s", what, mc::esc(m, 60).c_str(),
		 top.messages.empty() ? "nothing" : mc::esc(top.messages[0], 60).c_str());
	ex.obs(mc::hashStr(e));
	ex.step();
}

struct Stack {
	Wire wire;
	Top top;
	stored::CompressLayer enc, dec;
	Stack()
	{
		wire.wrap(enc);
		dec.wrap(top);
	}
};

void shortMessages(Explorer& ex, int n, int maxLen)
{
	Stack s;
	char const al[] = {'\0', 'a', '\xff'};
	for(int i = 0; i < n; i++) {
		int len = 1 + (i ? ex.choose(maxLen) : ex.shardChoose(maxLen));
		std::string m;
		for(int j = 0; j < len; j++)
			m += al[ex.choose(3)];
		int chunking = ex.choose(3);
		ex.trace("message %s", mc::esc(m).c_str());
		send(ex, s.enc, m, chunking);
		MC_CHECK(ex, "idle", s.enc.idle(), "encoder not idle");
		check(ex, s.wire, s.dec, s.top, m, "message");
		ex.state(mc::mix((uint64_t)i, mc::hashStr(m)));
	}
}

std::string structured(int kind, size_t len)
{
	std::string m;
	uint32_t r = 12345;
	for(size_t i = 0; i < len; i++) {
		r = r * 1103515245u + 12345u;
		char c;
		switch(kind) {
		case 0: c = 0; break;
		case 1: c = 'a'; break;
		case 2: c = (char)(r >> 16); break;
		case 3: c = (char)('a' + i % 3); break;
		case 4: c = (char)(i % 255); break;
		case 5: c = (char)(i % 256); break;
		case 6: c = (char)(i % 257 % 256); break;
		case 7: c = (i / 20) % 2 ? (char)(r >> 16) : 'x'; break;
		case 8: c = i < len / 2 ? 0 : (char)0xff; break;
		default: c = (char)(i % 17); break;
		}
		m += c;
	}
	return m;
}

void longMessages(Explorer& ex, int n)
{
	static size_t const lens[] = {1,   2,	3,   14,  15,  16,  17,	 18,  31,  32,	33,  63,  64,  65,  127, 128,
				      129, 143, 144, 254, 255, 256, 257, 258, 271, 272, 273, 511, 512, 513, 600, 1025};
	static int const chunks[] = {0, 1, 2, 3, 5, 16, 31, 32, 33, 128, 255, 256, 257};
	Stack s;
	for(int i = 0; i < n; i++) {
		int kind = i ? ex.choose(10) : ex.shardChoose(10);
		// Follow up messages are chosen out of fewer lengths.
		size_t len = i ? lens[ex.choose(4) * 9] : lens[ex.choose(32)];
		int chunking = i ? 0 : chunks[ex.choose(13)];
		std::string m = structured(kind, len);
		ex.trace("message of kind %d, %zu bytes", kind, len);
		send(ex, s.enc, m, chunking);
		check(ex, s.wire, s.dec, s.top, m, "message");
		ex.state(mc::mix((uint64_t)(i * 100 + kind), len));
	}
}

// Anything may be received, and it does not influence what comes next.
void corrupt(Explorer& ex, int maxLen)
{
	Stack s;
	int mode = ex.shardChoose(4);
	std::string bad;
	if(mode < 2) {
		// Any bytes.
		static uint8_t const al[] = {0, 0xff, 0x7f, 0x80, 0x01, 0xaa, 0x3f};
		int len = 1 + ex.choose(maxLen);
		if(mode == 0) {
			for(int i = 0; i < len; i++)
				bad += (char)al[ex.choose(7)];
		} else
			bad = std::string(1, (char)ex.choose(256)) + std::string((size_t)len * 40, (char)al[ex.choose(7)]);
	} else {
		std::string m = structured(ex.choose(10), 100);
		send(ex, s.enc, m, 0);
		bad = s.wire.messages[0];
		s.wire.messages.clear();
		if(mode == 2) {
			bad.resize((size_t)ex.choose((int)bad.size()));
		} else {
			size_t i = (size_t)ex.choose((int)bad.size());
			static uint8_t const x[] = {1, 0x80, 0x10, 0xff};
			bad[i] = (char)((uint8_t)bad[i] ^ x[ex.choose(4)]);
		}
	}
	ex.trace("decode %s", mc::esc(bad, 60).c_str());
	decode(s.dec, bad);
	ex.step();
	// Including an initial run of zeros, which the encoder may see as a reference to before its start.
	std::string m = ex.choose(2) ? std::string(20, '\0') + "abcabc" : "a good message";
	send(ex, s.enc, m, 0);
	check(ex, s.wire, s.dec, s.top, m, "message after a corrupt one");
	ex.state((uint64_t)mode);
}

// The compressing stream of the debugger.
void stream(Explorer& ex, int depth)
{
	stored::Stream<true> st;
	stored::CompressLayer dec;
	Top top;
	dec.wrap(top);
	std::string sent;
	bool flushed = false;
	for(int d = 0; d < depth; d++) {
		int op = ex.choose(6);
		if(op < 4) {
			static size_t const len[] = {1, 20, 150, 300};
			std::string m = structured(d % 2 ? 2 : 3, len[op]);
			ex.trace("write %zu bytes", m.size());
			st.encode(m.data(), m.size());
			if(!flushed)
				sent += m;
		} else if(op == 4) {
			ex.trace("flush");
			st.flush();
			if(!sent.empty())
				flushed = true;
		} else {
			if(!flushed) {
				st.flush();
				if(sent.empty())
					ex.prune();
			}
			ex.trace("read");
			stored::String::type s;
			st.swap(s);
			top.messages.clear();
			decode(dec, std::string(s.data(), s.size()));
			MC_CHECK(ex, "stream", top.messages.size() == 1 && top.messages[0] == sent, "%zu bytes instead of %zu: %s",
				 top.messages.empty() ? (size_t)0 : top.messages[0].size(), sent.size(),
				 top.messages.empty() ? "" : mc::esc(top.messages[0], 40).c_str());
			st.clear();
			st.unblock();
			sent.clear();
			flushed = false;
			MC_CHECK(ex, "stream-empty", st.empty(), "not empty after being read");
		}
		MC_CHECK(ex, "stream-empty", st.empty() == sent.empty(), "empty() gives %d, %zu bytes sent", (int)st.empty(), sent.size());
		ex.step();
		ex.state(mc::mix(sent.size(), (uint64_t)flushed));
	}
}

} // namespace

void mc::setup(bool)
{
	add("short", "all sequences of two messages of up to 3 bytes, of one of up to 7 (thorough: 8) bytes, out of an alphabet of 3, in 3 chunkings", 1,
	    [](Explorer& ex) { shortMessages(ex, 2, 3); });
	add("single", "all messages of up to 7 (thorough: 9) bytes out of an alphabet of 3, in 3 chunkings", 7,
	    [](Explorer& ex) { shortMessages(ex, 1, ex.thorough ? 9 : 7); });
	add("long", "all pairs (thorough: triples) of structured messages with lengths around all buffer sizes, in 13 chunkings", 10,
	    [](Explorer& ex) { longMessages(ex, ex.thorough ? 3 : 2); });
	add("corrupt", "all truncations and some changes of every byte of compressed messages, and all messages of up to 4 (thorough: 5) bytes", 4,
	    [](Explorer& ex) { corrupt(ex, ex.thorough ? 5 : 4); });
	add("stream", "all sequences of 5 (thorough: 6) writes, flushes and reads", 1, [](Explorer& ex) { stream(ex, ex.thorough ? 6 : 5); });
}

MC_MAIN
