// mc: property=P05 flavour=plain stores=DbgStore
//
// The real Debugger on top of the DebugArqLayer: requests with side effects are executed once, also when they are
// retransmitted because the response got lost.
#include "DbgStore.h"
#include <libstored/debugger.h>
#include <libstored/protocol.h>

#include "common/mc.h"

using mc::Explorer;

namespace {

struct Effects {
	int fnGets = 0;
	int fnSets = 0;
	int32_t fn = 0;
	int fsGets = 0;
};

class Store : public STORE_T(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase) {
	STORE_CLASS(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase)
public:
	Effects* e = nullptr;
	Store() is_default

	void __fn(bool set, int32_t& v)
	{
		if(set) {
			e->fn = v;
			e->fnSets++;
		} else
			// Reading has a side effect.
			v = e->fn + 16 * ++e->fnGets;
	}
	size_t __fs(bool set, char* b, size_t len)
	{
		if(set || !len)
			return 0;
		b[0] = (char)('a' + e->fsGets++);
		return 1;
	}
	size_t __fb(bool, void*, size_t)
	{
		return 0;
	}
};

class Wire : public stored::ProtocolLayer {
public:
	std::vector<std::string> frames;
	std::string cur;
	void encode(void const* b, size_t len, bool last = true) override
	{
		cur.append((char const*)b, len);
		if(last) {
			frames.push_back(cur);
			cur.clear();
		}
	}
	using ProtocolLayer::encode;
};

enum Req { ReadFn, WriteFn, ReadFs, ReadVar, WriteVar, Stream, StreamSuffix, Macro, Macro2, Alias, Define, Echo, List, Bad, Reqs };

char const* text[] = {"r/fn", "w7/fn", "r/fs", "r/a", "w12/a", "sX", "sX!", "M", "N", "A", "mQ;r/fn;sX", "eabc", "l", "r/none"};

void run(Explorer& ex, int depth)
{
	Effects e;
	Store store;
	store.e = &e;
	stored::Debugger dbg("id");
	dbg.map(store);
	stored::DebugArqLayer arq;
	Wire wire;
	arq.wrap(dbg);
	wire.wrap(arq);

	auto send = [&](unsigned seq, std::string const& s, bool reset = false) {
		wire.frames.clear();
		std::string m = std::string(1, (char)(seq | (reset ? 0x80 : 0))) + s;
		std::unique_ptr<char[]> b(new char[m.size()]);
		memcpy(b.get(), m.data(), m.size());
		wire.decode(b.get(), m.size());
	};
	auto direct = [&](char const* s) {
		Wire w;
		std::string m = s;
		dbg.process(&m[0], m.size(), w);
		return w.frames.empty() ? std::string("(none)") : w.frames.front();
	};
	MC_CHECK(ex, "setup", direct("mM;r/fn;sX") == "!" && direct("mN;w3/fn;r/fn;w1/a") == "!" && direct("aA/fn") == "!", " ");

	send(0, "", true);
	MC_CHECK(ex, "reset", wire.frames.size() == 1 && wire.frames[0] == "\x80", "%zu", wire.frames.size());

	std::string stream; // not yet read
	int8_t a = 1;
	int data = 0;
	unsigned seq = 1;
	for(int d = 0; d < depth; d++, seq++) {
		Req r = (Req)(d ? ex.choose(Reqs) : ex.shardChoose(Reqs));
		int times = 1 + ex.choose(3);
		std::string first;
		Effects want = e;
		int8_t wantA = a;
		std::string wantStream = stream;
		auto readFn = [&]() {
			uint32_t v = (uint32_t)(want.fn + 16 * ++want.fnGets);
			return mc::fmt("%x", v);
		};
		for(int t = 0; t < times; t++) {
			// The application continues meanwhile.
			std::string more = mc::fmt("<%d>", data++);
			size_t n = dbg.stream('X', more.data(), more.size());
			MC_CHECK(ex, "stream", n == more.size(), "%zu", n);
			stream += more;
			wantStream += more;

			std::string expect;
			bool purgeable = false;
			switch(t == 0 || r == ReadVar ? r : Reqs) {
			case ReadFn:
				expect = readFn();
				break;
			case WriteFn:
				want.fn = 7;
				want.fnSets++;
				expect = "!";
				break;
			case ReadFs:
				expect = mc::fmt("%02x", (unsigned)('a' + want.fsGets++));
				break;
			case ReadVar:
				expect = mc::fmt("%x", (unsigned)(uint8_t)wantA);
				break;
			case WriteVar:
				wantA = 0x12;
				expect = "!";
				break;
			case Stream:
				expect = wantStream;
				wantStream.clear();
				break;
			case StreamSuffix:
				expect = wantStream + "!";
				wantStream.clear();
				break;
			case Macro:
				expect = readFn() + wantStream;
				wantStream.clear();
				break;
			case Macro2:
				want.fn = 3;
				want.fnSets++;
				wantA = 1;
				expect = "!" + readFn() + "!";
				break;
			case Alias:
				expect = "?";
				break;
			case Define:
				expect = "!";
				break;
			case Echo:
				expect = "abc";
				break;
			case Bad:
				expect = "?";
				break;
			case List:
			case Reqs:;
			}
			purgeable = r == ReadVar || r == Echo || r == List;
			send(seq, text[r]);
			MC_CHECK(ex, "responds", wire.frames.size() == 1, "%s (%d): %zu frames", text[r], t, wire.frames.size());
			std::string got = wire.frames[0].substr(1);
			if(t == 0)
				first = wire.frames[0];
			if(t == 0 && r != List)
				MC_CHECK(ex, "response", got == expect, "%s: %s instead of %s", text[r], mc::esc(got).c_str(), mc::esc(expect).c_str());
			if(t && !purgeable)
				MC_CHECK(ex, "same response", wire.frames[0] == first, "%s (%d): %s instead of %s", text[r], t, mc::esc(wire.frames[0]).c_str(),
					 mc::esc(first).c_str());
			if(t && purgeable)
				MC_CHECK(ex, "same response", got == first.substr(1), "%s (%d): %s instead of %s", text[r], t, mc::esc(got).c_str(),
					 mc::esc(first.substr(1)).c_str());
			MC_CHECK(ex, "executed once",
				 e.fnGets == want.fnGets && e.fnSets == want.fnSets && e.fn == want.fn && e.fsGets == want.fsGets
					 && store.a.get() == wantA,
				 "%s (%d): gets %d/%d sets %d/%d fs %d/%d a %d/%d", text[r], t, e.fnGets, want.fnGets, e.fnSets, want.fnSets, e.fsGets,
				 want.fsGets, store.a.get(), wantA);
			stream = wantStream;
		}
		a = wantA;
	}
	// Nothing is lost from the stream.
	std::string rest = direct("sX");
	MC_CHECK(ex, "stream rest", rest == stream, "%s instead of %s", mc::esc(rest).c_str(), mc::esc(stream).c_str());
}

} // namespace

void mc::setup(bool th)
{
	int n = th ? 4 : 3;
	mc::add("debugger", mc::fmt("all sequences of %d requests (14 kinds), each sent 1 to 3 times, to the real Debugger", n), 14,
		[=](Explorer& ex) { run(ex, n); });
}

MC_MAIN
