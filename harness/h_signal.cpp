// Signals: all sequences of connecting, disconnecting and raising, against a list of connections.
// mc: property=P20 flavour=asan,opt stores=SigStore
#include "common/mc.h"
#include "SigStore.h"
#include <algorithm>
#include <memory>
#include <stored>
#include <string>

using mc::Explorer;

namespace {

struct Conn {
	int key; // -1: no key
	int token;
	int slot;
};

std::vector<std::pair<int, std::string>>* calls; // slot, args

std::string str()
{
	return "";
}
template <typename... A>
std::string str(int x, A... a)
{
	return mc::fmt("%d,", x) + str(a...);
}
template <typename... A>
std::string str(std::string const& x, A... a)
{
	return x + "," + str(a...);
}

// How key and token are represented.
template <typename K>
K key(int k)
{
	return (K)k;
}
static int objs[8];
template <>
void* key<void*>(int k)
{
	return &objs[k];
}
template <>
int* key<int*>(int k)
{
	return &objs[k];
}
template <>
std::string key<std::string>(int k)
{
	return std::string(1, (char)('a' + k));
}
template <typename T>
T token(int t)
{
	return (T)t;
}
template <>
void* token<void*>(int t)
{
	return t ? &objs[t] : nullptr;
}
template <>
std::string token<std::string>(int t)
{
	return t ? std::string(1, (char)('a' + t)) : std::string();
}

struct Int {
	typedef int type;
	static int arg()
	{
		return 3;
	}
	static std::string s()
	{
		return "3,";
	}
};
struct Str {
	typedef std::string type;
	static std::string arg()
	{
		return "a string that is certainly longer than the small string optimization";
	}
	static std::string s()
	{
		return arg() + ",";
	}
};

template <typename Key, typename Token, typename... Arg>
void body(Explorer& ex, int depth)
{
	typedef stored::Signal<Key, Token, typename Arg::type...> Sig;
	std::vector<std::pair<int, std::string>> called;
	calls = &called;
	std::unique_ptr<Sig> sig(ex.shardChoose(2) ? new Sig(1) : new Sig());
	std::vector<Conn> conns;
	int slot = 0;
	std::string args;
	int dummy[] = {0, (args += Arg::s(), 0)...};
	(void)dummy;

	auto expect = [&](char const* what, int k) {
		std::vector<int> want, got;
		for(auto const& c : conns)
			if(k == -2 || c.key == k)
				want.push_back(c.slot);
		for(auto const& c : called) {
			got.push_back(c.first);
			MC_CHECK(ex, "args", c.second == args, "%s: slot %d gets %s instead of %s", what, c.first,
				 mc::esc(c.second).c_str(), mc::esc(args).c_str());
		}
		called.clear();
		std::sort(want.begin(), want.end());
		std::sort(got.begin(), got.end());
		std::string w, g;
		for(int x : want)
			w += mc::fmt(" %d", x);
		for(int x : got)
			g += mc::fmt(" %d", x);
		MC_CHECK(ex, "calls", want == got, "%s: slots%s called instead of%s", what, g.c_str(), w.c_str());
		for(int x : got)
			ex.obs((uint64_t)x);
	};

	int const K = 2; // keys
	int const T = 3; // tokens, 0 is none
	for(int d = 0; d < depth; d++) {
		// connect: key x token, plus no key x token, disconnect all, key, key/token, raise key, raise all
		int op = ex.choose((K + 1) * T + 1 + K + K * T);
		if(op < (K + 1) * T) {
			int k = op / T - 1;
			int t = op % T;
			int s = slot++;
			ex.trace("connect %d: key %d, token %d", s, k, t);
			auto f = [s](typename Arg::type... a) { calls->push_back(std::make_pair(s, str(a...))); };
			if(k < 0) {
				if(t)
					sig->connect(std::move(f), token<Token>(t));
				else
					sig->connect(std::move(f));
			} else if(t)
				sig->connect(key<Key>(k), std::move(f), token<Token>(t));
			else
				sig->connect(key<Key>(k), std::move(f));
			conns.push_back(Conn{k, t, s});
		} else if((op -= (K + 1) * T) == 0) {
			ex.trace("disconnect all");
			sig->disconnect();
			conns.clear();
		} else if(op <= K) {
			int k = op - 1;
			ex.trace("disconnect key %d", k);
			sig->disconnect(key<Key>(k));
			conns.erase(std::remove_if(conns.begin(), conns.end(), [=](Conn const& c) { return c.key == k; }),
				    conns.end());
		} else {
			op -= K + 1;
			int k = op / T, t = op % T;
			ex.trace("disconnect key %d, token %d", k, t);
			sig->disconnect(key<Key>(k), token<Token>(t));
			conns.erase(std::remove_if(conns.begin(), conns.end(),
						   [=](Conn const& c) { return c.key == k && c.token == t; }),
				    conns.end());
		}
		// Raise everything.
		for(int k = 0; k < K + 1; k++) {
			(*sig)(key<Key>(k), Arg::arg()...);
			expect(mc::fmt("key %d", k).c_str(), k);
			sig->call(key<Key>(k), Arg::arg()...);
			expect(mc::fmt("key %d", k).c_str(), k);
			bool want = false;
			for(auto const& c : conns)
				if(c.key == k)
					want = true;
			MC_CHECK(ex, "connected", sig->connected(key<Key>(k)) == want, "key %d is %sconnected", k,
				 want ? "not " : "");
		}
		(*sig)(Arg::arg()...);
		expect("all", -2);
		sig->call(Arg::arg()...);
		expect("all", -2);
		MC_CHECK(ex, "connected", sig->connected() == !conns.empty(), "connected() is wrong");
		ex.step();
		uint64_t h = 0;
		for(auto const& c : conns)
			h = mc::mix(h, (uint64_t)(c.key * 10 + c.token + 100));
		ex.state(h);
	}
}

class Store : public STORE_T(Store, stored::Signalling, stored::SigStoreBase) {
	STORE_CLASS(Store, stored::Signalling, stored::SigStoreBase)
public:
	Store() is_default
};

// Signals of a store are raised when, and only when, a value changed.
void storeBody(Explorer& ex, int depth)
{
	std::vector<std::pair<int, std::string>> called;
	calls = &called;
	std::unique_ptr<Store> st(new Store());
	Store& s = *st;
	std::vector<Conn> conns;
	int slot = 0;
	int32_t a = 0;
	int16_t b = 0;
	std::string str_;
	std::string blob(4, '\0');
	float f = 0;
	bool first = true;
	int const V = 5;
	for(int d = 0; d < depth; d++) {
		int const total = V * 2 + V * 2 + 2 + 2 + 3 + 2 + 2 + 2;
		int op = first ? ex.shardChoose(total) : ex.choose(total);
		first = false;
		int changed = -1;
		if(op < V * 2) {
			int v = op / 2, t = op % 2, n = slot++;
			ex.trace("connect %d to object %d, token %d", n, v, t);
			auto cb = [n]() { calls->push_back(std::make_pair(n, std::string())); };
			void* tok = token<void*>(t);
			switch(v) {
			case 0: s.connect(s.a, std::move(cb), tok); break;
			case 1: s.connect(s.b, std::move(cb), tok); break;
			case 2: s.connect(s.s, std::move(cb), tok); break;
			case 3: s.connect(s.d, std::move(cb), tok); break;
			default: s.connect(s.f, std::move(cb), tok);
			}
			conns.push_back(Conn{v, t, n});
		} else if((op -= V * 2) < V * 2) {
			int v = op / 2, t = op % 2;
			ex.trace("disconnect object %d, token %d", v, t);
			void* tok = token<void*>(t);
			switch(v) {
			case 0: s.disconnect(s.a, tok); break;
			case 1: s.disconnect(s.b, tok); break;
			case 2: s.disconnect(s.s, tok); break;
			case 3: s.disconnect(s.d, tok); break;
			default: s.disconnect(s.f, tok);
			}
			conns.erase(std::remove_if(conns.begin(), conns.end(),
						   [=](Conn const& c) { return c.key == v && c.token == t; }),
				    conns.end());
		} else if((op -= V * 2) < 2) {
			int32_t x = op ? 77 : 0;
			ex.trace("a = %d", (int)x);
			if(x != a)
				changed = 0;
			s.a = a = x;
		} else if((op -= 2) < 2) {
			int16_t x = op ? -5 : 0;
			ex.trace("b = %d", (int)x);
			if(x != b)
				changed = 1;
			b = x;
			s.b.variant().set<int16_t>(x);
		} else if((op -= 2) < 3) {
			char const* x[] = {"", "abc", "abcdef"};
			ex.trace("s = %s", x[op]);
			if(str_ != x[op])
				changed = 2;
			str_ = x[op];
			s.s.set(x[op]);
		} else if((op -= 3) < 2) {
			std::string x = op ? std::string("\0\1\2\3", 4) : std::string(4, '\0');
			ex.trace("d = %s", mc::esc(x).c_str());
			if(blob != x)
				changed = 3;
			blob = x;
			s.d.set(x.data(), x.size());
		} else if((op -= 2) < 2) {
			float x = op ? 1.5f : 0.0f;
			ex.trace("f = %g", (double)x);
			if(f != x)
				changed = 4;
			f = x;
			s.f.set(x);
		} else {
			op -= 2;
			// Through the directory.
			int32_t x = op ? 77 : 0;
			ex.trace("/a = %d, by name", (int)x);
			if(x != a)
				changed = 0;
			a = x;
			s.find("/a").set<int32_t>(x);
		}
		std::vector<int> want, got;
		for(auto const& c : conns)
			if(c.key == changed)
				want.push_back(c.slot);
		for(auto const& c : called)
			got.push_back(c.first);
		called.clear();
		std::sort(got.begin(), got.end());
		MC_CHECK(ex, "store-calls", want == got, "%zu slots called instead of %zu, object %d changed", got.size(),
			 want.size(), changed);
		ex.obs((uint64_t)got.size());
		ex.step();
		uint64_t h = mc::mix((uint64_t)a, (uint64_t)b);
		h = mc::mix(h, mc::hashStr(str_ + blob));
		h = mc::mix(h, (uint64_t)f);
		for(auto const& c : conns)
			h = mc::mix(h, (uint64_t)(c.key * 10 + c.token));
		ex.state(h);
	}
}

} // namespace

void mc::setup(bool)
{
	int depth = mc::slow ? 3 : 4;
#define SIG(name, ...) \
	add(name, mc::fmt("all sequences of %d (thorough: one more) connects and disconnects, raising all keys after each; %s", depth, #__VA_ARGS__), 2, \
	    [=](Explorer& ex) { body<__VA_ARGS__>(ex, depth + (ex.thorough ? 1 : 0)); })
	SIG("default", void*, void*);
	SIG("int", int, int);
	SIG("arg", int*, int, Str);
	SIG("args", unsigned char, void*, Str, Int);
	add("store", mc::fmt("all sequences of %d (thorough: one more) connects, disconnects and writes of a Signalling store", depth), 16,
	    [=](Explorer& ex) { storeBody(ex, depth + (ex.thorough ? 1 : 0)); });
}

MC_MAIN
