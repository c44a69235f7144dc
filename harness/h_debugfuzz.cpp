// mc: property=P14 flavour=asan,dbg,small stores=DbgStore
//
// Arbitrary requests, in several states of the debugger.
#include "DbgStore.h"
#include <libstored/debugger.h>
#include <libstored/protocol.h>

#include "common/mc.h"

#include <map>
#include <memory>

using mc::Explorer;

namespace {

struct App {
	int sets = 0;
	std::string fs = "abc";
};

class Store : public STORE_T(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase) {
	STORE_CLASS(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase)
public:
	App* app = nullptr;
	Store() is_default

	void __fn(bool set, int32_t& v)
	{
		if(set)
			app->sets++;
		else
			v = 7;
	}
	size_t __fs(bool set, char* b, size_t len)
	{
		if(set) {
			app->sets++;
			app->fs.assign(b, strnlen(b, len));
			return app->fs.size();
		}
		len = std::min(len, app->fs.size());
		memcpy(b, app->fs.data(), len);
		return len;
	}
	size_t __fb(bool set, void* b, size_t len)
	{
		if(set)
			app->sets++;
		else
			memset(b, 1, len);
		return len;
	}
};

class Dbg : public stored::Debugger {
public:
	using stored::Debugger::aliases;
	using stored::Debugger::macros;
};

class Client : public stored::ProtocolLayer {
public:
	size_t frames = 0;
	bool open = false;
	std::string cur, last;
	void encode(void const* b, size_t len, bool l = true) override
	{
		if(!open)
			cur.clear();
		cur.append((char const*)b, len);
		open = !l;
		if(l) {
			frames++;
			last = cur;
		}
	}
	using ProtocolLayer::encode;
};

// The requests that bring the debugger in some state.
std::vector<std::vector<std::string>> const states = {
	{},
	{"a0/a", "a1/fs", "mA|r0|e,", "tAS", "\2", "\2"},
	{"a0/s", "a1/x", "mA|B", "mB|A|w31/s", "mC|", "tAS2", "\1Sabc", "\1Tdefghijklmnopqrstuvw"},
	{"mA|mA|mB|e", "mB|sS|f|tBS|t", "mC|a0/s|w4142430", "\1Txyz"},
};

struct Sys {
	Explorer& ex;
	App app;
	Store store;
	Dbg dbg;
	Client c;
	uint8_t mem[64];

	Sys(Explorer& e, int state)
		: ex(e)
	{
		store.app = &app;
		dbg.map(store);
		c.wrap(dbg);
		memset(mem, 0x55, sizeof(mem));
		for(auto& r : states[(size_t)state])
			act(r);
	}

	std::string contents()
	{
		std::string s;
		std::vector<char> b(sizeof(Store) + 64);
		for(char const* n : {"/a", "/b", "/c", "/d", "/s", "/x", "/p32", "/p64", "/q", "/long", "/zone/v", "/zone/w", "/zorro/v", "/zorro/arr[0]", "/zorro/arr[1]"}) {
			auto v = store.find(n);
			size_t l = v.get(b.data(), v.size());
			s.append(b.data(), l);
			s += '|';
		}
		s += mc::fmt("%d", app.sets);
		return s;
	}

	void req(std::string const& r)
	{
		std::unique_ptr<char[]> p(new char[r.size()]);
		memcpy(p.get(), r.data(), r.size());
		c.frames = 0;
		std::string before = contents();
		dbg.decode(p.get(), r.size());
		ex.step();
		ex.trace("%s -> %zu: %s", mc::esc(r).c_str(), c.frames, mc::esc(c.last).c_str());
		MC_CHECK(ex, "one-response", c.frames == 1 && !c.open, "request %s: %zu responses", mc::esc(r).c_str(),
			 c.frames);
		// A macro concatenates the responses of several requests.
		if(c.last == "?" && strchr("?rwelamivRWsft", r[0]))
			MC_CHECK(ex, "nack-effect", contents() == before, "request %s", mc::esc(r).c_str());
	}

	void act(std::string const& r)
	{
		if(r[0] == 1)
			dbg.stream(r[1], r.data() + 2, r.size() - 2);
		else if(r[0] == 2)
			dbg.trace();
		else
			req(r);
	}

	void expect(std::string const& r, std::string const& e)
	{
		req(r);
		MC_CHECK(ex, "response", c.last == e, "request %s: got %s, expected %s", mc::esc(r).c_str(),
			 mc::esc(c.last).c_str(), mc::esc(e).c_str());
	}

	// Proper requests work properly.
	void probe()
	{
		dbg.trace();
		dbg.trace();
		for(int i = 0; i < 256; i++) {
			if(dbg.macros().count((char)i))
				expect(std::string("m") + (char)i, "!");
			if(dbg.aliases().count((char)i)) {
				MC_CHECK(ex, "alias-name", i >= 0x20 && i < 0x7f && i != '/', "an alias 0x%02x exists", i);
				expect(std::string("a") + (char)i, "!");
			}
		}
		expect("w42/a", "!");
		expect("r/a", "42");
		expect("w6162/s", "!");
		expect("r/s", "6162");
		expect("aQ/zorro/v", "!");
		expect("w7fQ", "!");
		expect("r/zorro/v", "7f");
		expect("mQ|rQ|e.|r/a", "!");
		expect("Q", "7f.42");
		expect("ehello", "hello");
		expect("?", caps());
		expect("t", "!");
		expect("mQ", "!");
		expect("Q", "?");
		req("l");
		MC_CHECK(ex, "list", std::count(c.last.begin(), c.last.end(), '\n') == 18, "%s", c.last.c_str());
		for(char x : {'S', 'T', 'A'}) {
			req(std::string("s") + x);
			if(dbg.stream(x))
				MC_CHECK(ex, "stream", c.last.size() <= 4096, "too much");
		}
		// All is read, so there is room.
		req("f");
		for(int i = 0; i < 256; i++)
			if(i != '?' && dbg.stream((char)i))
				req(std::string("s") + (char)i);
		if(!stored::Config::CompressStreams) {
			MC_CHECK(ex, "stream", dbg.stream('N', "new", 3) == 3, "no new data is accepted");
			expect("sN!", "new!");
		}
		for(uint8_t m : mem)
			MC_CHECK(ex, "memory", m == 0x55, "written");
	}

	std::string caps()
	{
		return std::string("?rwelamvRWst") + (stored::Config::CompressStreams ? "f" : "");
	}
};

bool memCmd(std::string const& r)
{
	// These may access any memory; with a proper address.
	return !r.empty() && (r[0] == 'R' || r[0] == 'W');
}

// Every request of up to two bytes, and every request of three bytes with a command and a special second byte.
void bytes2(Explorer& ex)
{
	int st = ex.shardChoose((int)states.size());
	int a = ex.choose(256);
	std::string r(1, (char)a);
	int b = ex.choose(257);
	if(b)
		r += (char)(b - 1);
	// 'R0' reads address 0.
	if(memCmd(r) && r.size() == 2 && isxdigit(r[1]))
		ex.prune();
	Sys s(ex, st);
	s.req(r);
	s.probe();
}

void grammar(Explorer& ex, std::string const& first, std::string const& alphabet, int len)
{
	int st = ex.shardChoose((int)(states.size() * first.size()));
	std::string r(1, first[(size_t)st % first.size()]);
	st /= (int)first.size();
	int n = 1 + ex.choose(len);
	for(int i = 0; i < n; i++)
		r += alphabet[(size_t)ex.choose((int)alphabet.size())];
	Sys s(ex, st);
	s.req(r);
	s.probe();
}

// Sequences of requests that may be malformed.
void sequences(Explorer& ex, int depth)
{
	static std::vector<std::string> const a = {
		"r", "w", "a", "m", "l", "s", "f", "t", "R", "W", "A", "B", "C", "r/", "w1", "w/", "w1/a", "w123/a", "a0", "a00", "a01",
		"aA0", "m0|0", "m0", "0", "1", "mA|C|A|B", "mC|A", "mA|m", "mA|l|l", "sS", "sT", "s?", "tA", "tA?", "tAS0", "tBT1", "tCSx", "fS", "fx",
		std::string("e\0", 2), std::string("\0", 1), "\xff", "\1S", "\1Sa", "\1?a", "\1Aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
		"\2", "mm|mm|mA|rx", "m||||", "mX|e|X|X", "X", "w6162/fs", "w616263646566/fs", "w01/fb", "w0102030405/fb", "r/fb", "w12345678/fn", "w123456789/fn"};
	int n = (int)a.size();
	int k = (int)states.size();
	int c = ex.shardChoose(n * k);
	Sys s(ex, c % k);
	s.act(a[(size_t)(c / k)]);
	for(int i = 1; i < depth; i++)
		s.act(a[(size_t)ex.choose(n)]);
	s.probe();
}

// Long requests of all lengths.
void lengths(Explorer& ex)
{
	static std::string const cmds("?rwelamivRWsftA\x80", 16);
	static char const* const fill[] = {"0", "/", "a", " ", "|", "\xff", "\n", "9/", "A|"};
	int c = ex.shardChoose((int)cmds.size() * 9);
	std::string r(1, cmds[(size_t)c % cmds.size()]);
	std::string f = fill[(size_t)c / cmds.size()];
	int n = ex.choose(300);
	if(n >= 270)
		n = (n - 269) * 997;
	while((int)r.size() < n)
		r += f;
	if(memCmd(r) && (f == "0" || f == "a" || f == " ") && r.size() < 20)
		ex.prune();
	Sys s(ex, ex.choose((int)states.size()));
	s.req(r);
	s.probe();
}

// Memory is accessed at proper addresses, only as far as addressed.
void memory(Explorer& ex)
{
	int c = ex.shardChoose(8);
	Sys s(ex, 0);
	// At the end of an allocation; more is detected.
	std::unique_ptr<uint8_t[]> m(new uint8_t[64]);
	memset(m.get(), 0x55, 64);
	int n = 1 + ex.choose(64);
	std::string a = mc::fmt("%llx", (unsigned long long)(uintptr_t)(m.get() + 64 - n));
	if(c < 2) {
		s.req((c ? "R0" : "R") + a + mc::fmt(" %x", n));
		MC_CHECK(ex, "read", c == 0 || s.c.last.size() == (size_t)n * 2 || s.c.last == "?", "%s", s.c.last.c_str());
	} else {
		std::string d;
		for(int i = 0; i < n; i++)
			d += "7e";
		if(c == 3)
			d.resize(d.size() - 1);
		if(c == 4)
			d += "1";
		bool bad = c >= 3;
		if(c == 5)
			d[0] = 'x';
		if(c == 6)
			d[1] = ' ';
		if(c == 7)
			a = "10000000" + a;
		s.req("W" + a + " " + d);
		MC_CHECK(ex, "write", s.c.last == (bad ? "?" : "!"), "%s", s.c.last.c_str());
		for(int i = 0; i < 64; i++) {
			uint8_t e = !bad && i >= 64 - n ? 0x7e : 0x55;
			MC_CHECK(ex, "memory", m[i] == e, "byte %d of %d", i, n);
		}
	}
	s.probe();
}

} // namespace

void mc::setup(bool t)
{
	mc::add("bytes2", "all requests of one or two bytes, in 4 states", 4, bytes2);
	mc::add("names", "read, write, alias with all names of up to 4 characters", 8,
		[](Explorer& ex) { grammar(ex, "rwa", std::string("/azs0 \0\xe9", 8), 4); });
	mc::add("macros", "macro definition and trace, with all arguments of up to 4 characters", 8,
		[](Explorer& ex) { grammar(ex, "mt", std::string("|AS0ra\0", 7), 4); });
	mc::add("others", "other commands, with all arguments of up to 3 characters", 8,
		[](Explorer& ex) { grammar(ex, "?elivsfAZ", std::string("|AS0?\0\xff", 7), 3); });
	mc::add("sequences2", "all sequences of 2 (malformed) requests", 8, [](Explorer& ex) { sequences(ex, 2); });
	mc::add("lengths", "requests up to 30 kB", 8, lengths);
	mc::add("memory", "reads and writes at the end of an allocation", 1, memory);
	if(t) {
		mc::add("sequences3", "all sequences of 3 (malformed) requests", 16, [](Explorer& ex) { sequences(ex, 3); }, false);
		mc::add("names6", "names of up to 6 characters", 12, [](Explorer& ex) { grammar(ex, "rwa", std::string("/azs0 \0\xe9", 8), 6); }, false);
	}
}

MC_MAIN
