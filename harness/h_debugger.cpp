// mc: property=P13 flavour=asan,dbg,small,be stores=DbgStore
//
// All request sequences (and application calls) up to a depth, against a model that is written from
// the documented protocol (sphinx/doc/cpp_debugger.rst).
#include "DbgStore.h"
#include <libstored/debugger.h>
#include <libstored/protocol.h>

#include "common/mc.h"

#include <map>
#include <memory>

using mc::Explorer;

namespace {

struct App {
	int32_t fn = 7;
	std::string fs = "abc";
	std::string fb = std::string("\x01\x02", 2);
	// How often a getter ran.
	int gets = 0;
};

class Store : public STORE_T(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase) {
	STORE_CLASS(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase)
public:
	App* app = nullptr;
	Store() is_default

public:
	void __fn(bool set, int32_t& v)
	{
		if(set)
			app->fn = v;
		else {
			v = app->fn;
			app->gets++;
		}
	}
	size_t __fs(bool set, char* b, size_t len)
	{
		if(set) {
			app->fs.assign(b, strnlen(b, len));
			return app->fs.size();
		}
		len = std::min(len, app->fs.size());
		memcpy(b, app->fs.data(), len);
		return len;
	}
	size_t __fb(bool set, void* b, size_t len)
	{
		if(set) {
			len = std::min<size_t>(len, 2);
			app->fb.replace(0, len, (char*)b, len);
			return len;
		}
		len = std::min(len, app->fb.size());
		memcpy(b, app->fb.data(), len);
		return len;
	}
};

class Client : public stored::ProtocolLayer {
public:
	std::vector<std::string> frames;
	std::string cur;
	bool purgeable = false;
	void encode(void const* b, size_t len, bool last = true) override
	{
		cur.append((char const*)b, len);
		if(last) {
			frames.push_back(cur);
			cur.clear();
		}
	}
	using ProtocolLayer::encode;
	void setPurgeableResponse(bool p = true) override
	{
		purgeable = p;
	}
};

// Model of the objects.
enum Kind { Int, Bool, Fixed, Str, Blob };

struct Obj {
	std::string name;
	Kind kind;
	size_t size;
	uint8_t type;
	bool func;
	std::string v; // little endian bytes
};

std::string le(uint64_t v, size_t n)
{
	std::string s;
	for(size_t i = 0; i < n; i++, v >>= 8)
		s += (char)v;
	return s;
}

char const* hexd = "0123456789abcdef";

std::string hexOf(std::string const& v)
{
	std::string r;
	for(uint8_t c : v) {
		r += hexd[c >> 4];
		r += hexd[c & 15];
	}
	return r;
}

std::string toHex(Obj const& o)
{
	if(o.kind == Str || o.kind == Blob)
		return hexOf(o.v);
	if(o.kind == Bool)
		return o.v[0] ? "1" : "0";
	std::string r = hexOf(std::string(o.v.rbegin(), o.v.rend()));
	if(o.kind == Int) {
		size_t p = r.find_first_not_of('0');
		r = p == std::string::npos ? "0" : r.substr(p);
	}
	return r;
}

int nib(char c)
{
	if(c >= '0' && c <= '9')
		return c - '0';
	if(c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	if(c >= 'A' && c <= 'F')
		return c - 'A' + 10;
	return -1;
}

bool parseBytes(std::string const& h, std::string& out)
{
	if(h.empty() || h.size() & 1)
		return false;
	out.clear();
	for(size_t i = 0; i < h.size(); i += 2) {
		int a = nib(h[i]), b = nib(h[i + 1]);
		if(a < 0 || b < 0)
			return false;
		out += (char)(a << 4 | b);
	}
	return true;
}

bool parseNum(std::string const& h, size_t size, uint64_t& v)
{
	v = 0;
	if(h.empty() || h.size() > size * 2)
		return false;
	for(char c : h) {
		int n = nib(c);
		if(n < 0)
			return false;
		v = v << 4 | (uint64_t)n;
	}
	return true;
}

struct MStream {
	std::string data;
	bool blocked = false;
};

using C = stored::Config;
using T = stored::Type;

struct Model {
	std::vector<Obj> objs;
	// Names (also abbreviated ones) to the index in objs, or -1.
	std::map<std::string, int> names;
	std::string listing;
	std::map<char, int> aliases;
	std::map<char, std::string> macros;
	std::vector<char> running;
	std::map<char, MStream> streams;
	char tm = 0, ts = 0;
	unsigned dec = 0, cnt = 0;
	std::string id, ver;
	uint8_t* mem = nullptr;

	enum { Unknown = -2 };

	int find(std::string const& n)
	{
		if(n.empty())
			return -1;
		if(n.size() == 1 && n[0] != '/') {
			auto it = aliases.find(n[0]);
			if(it != aliases.end())
				return it->second;
		}
		auto it = names.find(n);
		if(it == names.end())
			return Unknown;
		return it->second;
	}

	MStream* stream(char s, bool alloc)
	{
		auto it = streams.find(s);
		if(it != streams.end())
			return &it->second;
		if(!alloc)
			return nullptr;
		if((int)streams.size() >= C::DebuggerStreams) {
			// An empty one is reused.
			auto e = streams.begin();
			for(; e != streams.end() && !e->second.data.empty(); ++e)
				;
			if(e == streams.end())
				return nullptr;
			streams.erase(e);
		}
		return &streams[s];
	}

	size_t app(char s, std::string const& d)
	{
		if(s == '?')
			return 0;
		MStream* m = stream(s, true);
		if(!m || m->blocked)
			return 0;
		size_t max = C::DebuggerStreamBuffer + C::DebuggerStreamBufferOverflow;
		if(m->data.size() >= C::DebuggerStreamBuffer)
			return 0;
		size_t n = std::min(d.size(), max - m->data.size());
		m->data += d.substr(0, n);
		return n;
	}

	void trace()
	{
		if(!dec)
			return;
		if(++cnt < dec)
			return;
		cnt = 0;
		char s = ts;
		MStream* m = stream(s, true);
		if(!m)
			return;
		if(C::DebuggerStreamBufferOverflow) {
			size_t max = C::DebuggerStreamBuffer + C::DebuggerStreamBufferOverflow;
			if(m->data.size() >= C::DebuggerStreamBuffer
			   || m->data.size() + C::DebuggerStreamBufferOverflow > max)
				return;
		} else if(m->data.size() >= C::DebuggerStreamBuffer)
			return;
		std::string r;
		inTrace = true;
		bool ok = macro(tm, r);
		inTrace = false;
		if(!ok)
			return;
		if(!streams.count(s)) {
			// The macro reconfigured the trace, which reused the (empty) stream for another
			// name. Not specified what happens with the output of the running macro.
			lost = true;
			return;
		}
		m = &streams[s];
		if(!m->blocked)
			m->data += r;
	}

	size_t macroSize()
	{
		size_t n = 0;
		for(auto& m : macros)
			n += m.second.size();
		return n;
	}

	bool inUse(char m)
	{
		for(char c : running)
			if(c == m)
				return true;
		return false;
	}

	bool macro(char m, std::string& out)
	{
		auto it = macros.find(m);
		if(it == macros.end() || inUse(m))
			return false;
		std::string d = it->second;
		running.push_back(m);
		size_t pos = 0;
		while(pos != std::string::npos && d.size() > 1) {
			size_t e = d.find(d[0], pos + 1);
			std::string cmd = d.substr(pos + 1, e == std::string::npos ? e : e - pos - 1);
			if(!cmd.empty()) {
				bool p;
				out += request(cmd, p);
			}
			pos = e;
		}
		running.pop_back();
		return true;
	}

	bool lost = false;
	bool inTrace = false;
	bool unknown = false; // the outcome is not specified

	std::string request(std::string const& r, bool& purge)
	{
		static std::string const ack = "!", nack = "?";
		purge = false;
		switch(r[0]) {
		case '?': {
			purge = true;
			std::string c = "?rwelam";
			if(!id.empty())
				c += 'i';
			c += "vRWst";
			if(C::CompressStreams)
				c += 'f';
			return c;
		}
		case 'r': {
			int o = find(r.substr(1));
			if(o == Unknown)
				unknown = true;
			if(o < 0)
				return nack;
			purge = !objs[(size_t)o].func;
			return toHex(objs[(size_t)o]);
		}
		case 'w': {
			size_t s = r.find('/', 1);
			if(s == std::string::npos)
				s = r.size() - 1;
			if(s == 0)
				return nack;
			int o = find(r.substr(s));
			if(o == Unknown)
				unknown = true;
			if(o < 0)
				return nack;
			std::string h = r.substr(1, s - 1);
			Obj& ob = objs[(size_t)o];
			if(ob.kind == Str || ob.kind == Blob) {
				std::string b;
				if(!parseBytes(h, b))
					return nack;
				b = b.substr(0, ob.size);
				if(ob.kind == Str) {
					size_t z = b.find('\0');
					ob.v = z == std::string::npos ? b : b.substr(0, z);
				} else
					ob.v.replace(0, b.size(), b);
			} else {
				uint64_t v;
				if(!parseNum(h, ob.size, v))
					return nack;
				ob.v = le(v, ob.size);
			}
			return ack;
		}
		case 'e':
			purge = true;
			return r.substr(1);
		case 'l':
			purge = true;
			return listing.empty() ? nack : listing;
		case 'a': {
			if(r.size() < 2 || r[1] < 0x20 || r[1] > 0x7e || r[1] == '/')
				return nack;
			if(r.size() == 2) {
				aliases.erase(r[1]);
				return ack;
			}
			int o = find(r.substr(2));
			if(o == Unknown)
				unknown = true;
			if(o < 0 || (!aliases.count(r[1]) && (int)aliases.size() >= C::DebuggerAlias))
				return nack;
			aliases[r[1]] = o;
			return ack;
		}
		case 'm': {
			if(r.size() < 2 || inUse(r[1]))
				return nack;
			if(r.size() == 2) {
				macros.erase(r[1]);
				return ack;
			}
			size_t n = macroSize() + r.size() - 2;
			if(macros.count(r[1]))
				n -= macros[r[1]].size();
			if((int)n > C::DebuggerMacro)
				return nack;
			macros[r[1]] = r.substr(2);
			return ack;
		}
		case 'i':
			purge = !id.empty();
			return id.empty() ? nack : id;
		case 'v':
			purge = true;
			return "2" + (ver.empty() ? "" : " " + ver) + " debug";
		case 'R': {
			size_t s = r.find(' ');
			uint64_t a, n = 8;
			if(!parseNum(r.substr(1, s == std::string::npos ? s : s - 1), 8, a))
				return nack;
			if(s != std::string::npos && s + 1 < r.size() && !parseNum(r.substr(s + 1), 4, n))
				return nack;
			if(!n)
				return nack;
			purge = true;
			return hexOf(std::string((char const*)a, n));
		}
		case 'W': {
			size_t s = r.find(' ');
			uint64_t a;
			std::string b;
			if(!parseNum(r.substr(1, s == std::string::npos ? s : s - 1), 8, a)
			   || s == std::string::npos || !parseBytes(r.substr(s + 1), b))
				return nack;
			memcpy((void*)(a - (uintptr_t)realMem + (uintptr_t)mem), b.data(), b.size());
			return ack;
		}
		case 's': {
			if(r.size() == 1) {
				std::string n;
				for(auto& s : streams)
					if(!s.second.data.empty())
						n += s.first;
				return n.empty() ? nack : n;
			}
			MStream* m = stream(r[1], false);
			if(!m)
				return nack;
			// Reading the stream that this is the output of, is not specified.
			lost = lost || (inTrace && ts == r[1]);
			if(!C::CompressStreams && dec && ts == r[1])
				purge = true;
			std::string d;
			d.swap(m->data);
			m->blocked = false;
			return d + r.substr(2);
		}
		case 'f':
			if(!C::CompressStreams)
				break;
			if(r.size() > 2)
				return nack;
			for(auto& s : streams)
				if(r.size() == 1 || r[1] == s.first)
					s.second.blocked = true;
			return ack;
		case 't': {
			dec = 0;
			if(r.size() == 1)
				return ack;
			if(r.size() == 2)
				return nack;
			tm = r[1];
			ts = r[2];
			if(ts == '?' || !stream(ts, true))
				return nack;
			uint64_t d = 1;
			if(r.size() > 3 && !parseNum(r.substr(3), 4, d))
				return nack;
			dec = (unsigned)d;
			return ack;
		}
		default:;
		}
		std::string out;
		return macro(r[0], out) ? out : nack;
	}

	uint8_t* realMem = nullptr;
};

struct Sys {
	Explorer& ex;
	App app;
	Store store;
	std::unique_ptr<stored::Debugger> dbg{new stored::Debugger};
	Client client;
	Model m;
	// Surrounded by guards.
	alignas(8) uint8_t mem[256];
	uint8_t mmem[256];
	bool check = true;

	// The listing, with a prefix for all names.
	static std::string list(std::vector<Obj> const& objs, std::string const& prefix)
	{
		std::map<std::string, std::string> l;
		for(auto& o : objs)
			l[o.name] = mc::fmt("%02x%zx%s%s\n", o.type, o.size, prefix.c_str(), o.name.c_str());
		std::string r;
		for(auto& x : l)
			r += x.second;
		return r;
	}

	// Sort the lines.
	static std::string sorted(std::string const& s)
	{
		std::vector<std::string> l;
		size_t p = 0;
		while(p < s.size()) {
			size_t e = s.find('\n', p);
			if(e == std::string::npos) {
				l.push_back(s.substr(p) + "(unterminated)");
				break;
			}
			l.push_back(s.substr(p, e + 1 - p));
			p = e + 1;
		}
		std::sort(l.begin(), l.end());
		std::string r;
		for(auto& x : l)
			r += x;
		return r;
	}

	explicit Sys(Explorer& e)
		: ex(e)
	{
		store.app = &app;
		dbg->map(store);
		client.wrap(*dbg);
		for(int i = 0; i < 256; i++)
			mem[i] = mmem[i] = (uint8_t)(i * 7 + 1);
		m.mem = mmem;
		m.realMem = mem;
		auto add = [&](char const* n, Kind k, size_t s, uint8_t t, std::string const& v) {
			m.objs.push_back(Obj{n, k, s, t, T::isFunction((T::type)t), v});
			m.names[n] = (int)m.objs.size() - 1;
			m.names[std::string("/DbgStore") + n] = (int)m.objs.size() - 1;
		};
		add("/a", Int, 1, (uint8_t)(T::Int8), le(1, 1));
		add("/b", Int, 2, (uint8_t)(T::Uint16), le(0x1234, 2));
		add("/c", Bool, 1, (uint8_t)(T::Bool), le(1, 1));
		add("/d", Fixed, 4, (uint8_t)(T::Float), le(0x3fc00000, 4));
		add("/s", Str, 3, (uint8_t)(T::String), "xy");
		add("/x", Blob, 2, (uint8_t)(T::Blob), le(0, 2));
		add("/fn", Int, 4, (uint8_t)(T::Int32 | T::FlagFunction), le(7, 4));
		add("/fs", Str, 3, (uint8_t)(T::String | T::FlagFunction), "abc");
		add("/fb", Blob, 2, (uint8_t)(T::Blob | T::FlagFunction), le(0x201, 2));
		add("/p32", Fixed, 4, (uint8_t)(T::Pointer32), le(0, 4));
		add("/p64", Fixed, 8, (uint8_t)(T::Pointer64), le(0, 8));
		add("/q", Int, 8, (uint8_t)(T::Int64), le((uint64_t)-2, 8));
		add("/long name", Int, 4, (uint8_t)(T::Uint32), le(0, 4));
		add("/zone/v", Int, 1, (uint8_t)(T::Int8), le(5, 1));
		add("/zone/w", Str, 5, (uint8_t)(T::String), "");
		add("/zorro/v", Int, 1, (uint8_t)(T::Int8), le(6, 1));
		add("/zorro/arr[0]", Bool, 1, (uint8_t)(T::Bool), le(0, 1));
		add("/zorro/arr[1]", Bool, 1, (uint8_t)(T::Bool), le(0, 1));
		// Abbreviations.
		m.names["/l"] = m.names["/long name"];
		m.names["/long"] = m.names["/long name"];
		m.names["/zon/v"] = m.names["/zone/v"];
		m.names["/zor/v"] = m.names["/zorro/v"];
		// Ambiguous or absent.
		for(char const* n : {"/", "/z/v", "/zz", "/f", "/p", "/zone", "/zone/", "/p3x/", "/zo/v", "/A"})
			m.names[n] = -1;
		for(char const* n : {"",  "0", "1", "2", "k"})
			m.names[n] = -1;
		m.listing = list(m.objs, "");
	}

	~Sys()
	{
		dbg.reset();
	}

	std::string req(std::string const& r)
	{
		std::unique_ptr<char[]> p(new char[r.size()]);
		memcpy(p.get(), r.data(), r.size());
		client.frames.clear();
		client.purgeable = false;
		dbg->decode(p.get(), r.size());
		MC_CHECK(ex, "one-response", client.frames.size() == 1 && client.cur.empty(), "request %s: %zu responses",
			 mc::esc(r).c_str(), client.frames.size());
		bool purge = false;
		std::string e = m.request(r, purge);
		ex.step();
		ex.trace("%s -> %s", mc::esc(r).c_str(), mc::esc(client.frames[0]).c_str());
		// The order of the objects in a list is not specified.
		MC_CHECK(ex, "response", r == "l" || r == "lx" ? sorted(client.frames[0]) == sorted(e) : client.frames[0] == e, "request %s: got %s, expected %s", mc::esc(r).c_str(),
			 mc::esc(client.frames[0]).c_str(), mc::esc(e).c_str());
		MC_CHECK(ex, "purgeable", !client.purgeable || purge,
			 "request %s: the response is marked as being dispensable", mc::esc(r).c_str());
		return e;
	}

	void verify()
	{
		for(auto& o : m.objs) {
			std::string v;
			if(o.name == "/fn")
				v = le((uint32_t)app.fn, 4);
			else if(o.name == "/fs")
				v = app.fs;
			else if(o.name == "/fb")
				v = app.fb;
			else {
				auto var = store.find(o.name.c_str());
				std::vector<char> b(o.size + 1);
				size_t n = var.get(b.data(), o.size);
				v.assign(b.data(), n);
			}
			MC_CHECK(ex, "store", v == o.v, "%s is %s, expected %s", o.name.c_str(), mc::esc(v).c_str(),
				 mc::esc(o.v).c_str());
		}
		MC_CHECK(ex, "memory", !memcmp(mem, mmem, sizeof(mem)), "the memory contains something else");
	}

	std::string addr(int ofs)
	{
		return mc::fmt("%llx", (unsigned long long)(uintptr_t)(mem + ofs));
	}
};

// Every object, every value: write, and read it back; all other objects remain the same.
void values(Explorer& ex, int depth)
{
	static char const* const vals[] = {"",	 "0",	"1",  "00",	"ff",	   "7F",       "80",
					   "123", "1234", "5",  "616263", "61626364", "610062",   "zz",
					   "0g", "41 ", "-1", "ffffffff", "deadbeef1", "0123456789abcdef", "0123456789abcdef0", "\x80"};
	constexpr int NV = sizeof(vals) / sizeof(vals[0]);
	Sys s(ex);
	int no = (int)s.m.objs.size();
	for(int i = 0; i < depth; i++) {
		int c = i == 0 ? ex.shardChoose(no * NV) : ex.choose(no * NV);
		Obj& o = s.m.objs[(size_t)(c % no)];
		s.req(std::string("w") + vals[c / no] + o.name);
		s.verify();
	}
	for(auto& o : s.m.objs) {
		s.req("r" + o.name);
		s.req("r/DbgStore" + o.name);
	}
}

void run(Explorer& ex, std::vector<std::string> const& a, int depth, std::vector<std::string> const& fin,
	 std::vector<std::string> const& pre = {})
{
	Sys s(ex);
	if(ex.choose(2)) {
		s.m.id = "app";
		s.dbg->setIdentification("app");
		s.m.ver = "v1 v2";
		s.dbg->setVersions("v1 v2");
	}
	auto act = [&](std::string const& r) {
		if(r[0] == 1) {
			// The application uses a stream.
			std::string d = r.substr(2);
			size_t e = s.m.app(r[1], d);
			size_t n = s.dbg->stream(r[1], d.data(), d.size());
			ex.trace("stream(%c, %s) -> %zu", r[1], mc::esc(d).c_str(), n);
			MC_CHECK(ex, "stream-length", n == e, "%zu accepted, expected %zu", n, e);
		} else if(r[0] == 2) {
			ex.trace("trace()");
			s.m.trace();
			s.dbg->trace();
			if(s.m.lost)
				ex.prune();
		} else
			s.req(r);
		s.verify();
	};
	for(auto& r : pre)
		act(r);
	for(int i = 0; i < depth; i++) {
		int n = (int)a.size();
		act(a[(size_t)(i == 0 ? ex.shardChoose(n) : ex.choose(n))]);
	}
	for(auto& r : fin)
		act(r);
}

std::vector<std::string> const aliasReqs = {
	"a0/a",	 "a0/b",  "a1/zone/v", "a2/fn", "a0",	"a1",  "a",	 "a//a",  "a\x1f/a", "a\x7f/a", "a~/s",
	"a0/zz", "a0/z/v", "a10",      "a01",	"r0",	"r1",  "w50",	 "w61621", "w1/0",   "w7/a",	"r~",
	"ak/DbgStore/q", "rk", "a /x", "r ", "wff1", "a\x80/a", "a0/", "w0"};
std::vector<std::string> const aliasFin = {"r0", "r1", "r2", "r~", "r ", "w10", "w11", "w612", "r/a", "r/b", "r/q"};

std::vector<std::string> const macroReqs = {
	"mA|r/a|e;|r/b", "mA|", "mA", "mB|A|A", "mA|B|e1", "mA|A|e2", "A", "B", "mB||", "mr|e1", "mA|mA", "mA|mA|x|e3",
	"mA|mB|e4|B", "mB|e5", "mC|w3/a|r/a", "C", "mB,e|,e.", "m", "mB", "mA|C|C", "mA|m", "mA|mC|ex|A|e4",
	"mA0123456789abcd", "mBeeeeeeeeeeeee", "mC12345678901234567890", "\x80", "m\x80|e7", "mA|zz|e8"};
std::vector<std::string> const macroFin = {"A", "B", "C", "mD|e12345678901", "D", "mA", "mB", "mC", "mE|e123456789", "E"};

std::vector<std::string> const streamReqs = {
	"s", "sA", "sB", "sC", "sA/", "s?", "f", "fA", "fAB", "\1Axyz", "\1B0123456789", std::string("\1A\0\1", 4),
	"\1C0123456789abcdefghijklmn", "\1?q", "\1A", "mM|e,|r/a", "tMA", "tMB2", "tMC0", "t", "tM", "tXA", "tMAg",
	"tMA00000003", "\2", "mM|e,|sA", "mM|f|e-", "sA\n;", "tA?", "mM|tMA2|ex", "mM|M|t|e=", "tMA100000002"};
std::vector<std::string> const streamFin = {"s", "\1Az", "\1Bz", "sA", "sB", "sC", "s", "\2", "\2", "\2", "\2", "sA", "sB", "t", "\2", "sA", "sB"};

std::vector<std::string> mixed()
{
	std::vector<std::string> a = {"?", "e", "ehello", std::string("e\0\xff", 3), "i", "v", "l", "x", "!",
				      std::string("\0", 1), "r", "w", "r/a", "w2/a", "a0/a", "r0", "w30", "mA|r0|w40|r/a", "A", "tAS", "\2",
				      "sS", "\1Sq", "s", "r/f", "w/a", "t", "mA", "a0", "ix", "vx", "lx", "?x"};
	if(C::CompressStreams)
		// The contents of compressed streams are checked for P15.
		for(auto& r : a)
			if(r == "sS" || r == "s")
				r = "r/zone/v";
	return a;
}

void memory(Explorer& ex)
{
	Sys s(ex);
	static int const offs[] = {0, 1, 63, 64};
	int c = ex.shardChoose(4 * 3);
	std::string a = s.addr(offs[c % 4]);
	std::string b = c / 4 == 1 ? "0" + a : a;
	if(c / 4 == 2)
		for(char& x : b)
			x = (char)toupper(x);
	int kind = ex.choose(3);
	if(kind == 0) {
		int n = ex.choose(130);
		if(n < 128)
			s.req("R" + b + " " + mc::fmt("%x", n));
		else if(n == 128)
			s.req("R" + b + " ");
		else
			s.req("R" + b);
	} else if(kind == 1) {
		int n = ex.choose(140);
		int var = ex.choose(4);
		std::string d;
		for(int i = 0; i < n; i++)
			d += mc::fmt(var & 1 ? "%02X" : "%02x", (i * 11 + 129) & 0xff);
		if(var & 2)
			d += "1";
		s.req("W" + b + " " + d);
	} else {
		static char const* const bad[] = {"R",	"R ",  "Rg",	"R 1",	"W",	"W ",	 "W 00",  "Wg 00", "W0", "W0 ", "W0 0",
						  "R0 0", "R0 g", "R11112222333344445", "R1 111112222", "W11112222333344445 00", "W1 0g", "W1 000"};
		s.req(bad[ex.choose(sizeof(bad) / sizeof(bad[0]))]);
	}
	s.verify();
	s.req("R" + s.addr(0) + " 100");
}

// Stores are mapped, replaced, and unmapped.
void mapping(Explorer& ex, int depth)
{
	static char const* const prefixes[] = {"/aa", "/ab", "/b", "/b2", "/caa"};
	App app[3];
	Store st[3];
	stored::DbgStore dummy;
	stored::Debugger dbg;
	Client cl;
	cl.wrap(dbg);
	std::map<std::string, int> map;
	for(int i = 0; i < 3; i++) {
		st[i].app = &app[i];
		st[i].a = (int8_t)(0x11 * (i + 1));
	}
	struct Alias {
		int store;
	};
	std::map<char, int> alias;
	auto req = [&](std::string const& r) {
		std::unique_ptr<char[]> p(new char[r.size()]);
		memcpy(p.get(), r.data(), r.size());
		cl.frames.clear();
		dbg.decode(p.get(), r.size());
		MC_CHECK(ex, "one-response", cl.frames.size() == 1 && cl.cur.empty(), "request %s: %zu responses",
			 mc::esc(r).c_str(), cl.frames.size());
		ex.step();
		ex.trace("%s -> %s", mc::esc(r).c_str(), mc::esc(cl.frames[0]).c_str());
		return cl.frames[0];
	};
	auto expect = [&](std::string const& r, std::string const& e) {
		std::string x = req(r);
		MC_CHECK(ex, "response", x == e, "request %s: got %s, expected %s", mc::esc(r).c_str(),
			 mc::esc(x).c_str(), mc::esc(e).c_str());
	};
	std::vector<Obj> const objs = Sys(ex).m.objs;
	for(int step = 0; step < depth; step++) {
		int c = step == 0 ? ex.shardChoose(5 * 3 + 5 + 2) : ex.choose(5 * 3 + 5 + 2);
		if(c < 15) {
			// Also replaces an existing one.
			dbg.map(st[c / 5], prefixes[c % 5]);
			map[prefixes[c % 5]] = c / 5;
			ex.trace("map %d as %s", c / 5, prefixes[c % 5]);
		} else if(c < 20) {
			dbg.unmap(prefixes[c - 15]);
			map.erase(prefixes[c - 15]);
			ex.trace("unmap %s", prefixes[c - 15]);
		} else if(c == 20) {
			// Rejected names.
			dbg.map(st[0], "x");
			dbg.map(st[0], "/x/y");
			dbg.map(st[0], "");
		} else {
			dbg.map(dummy);
			dbg.unmap("/DbgStore");
		}
		// Every store.
		std::string e;
		for(auto& m : map) {
			std::string pre = map.size() == 1 ? "" : m.first;
			e += Sys::list(objs, pre);
			std::string v = mc::fmt("%x", (uint8_t)st[m.second].a.get());
			expect("r" + pre + "/a", v);
			expect("r" + pre + "/long", "0");
			expect("r" + pre + "/zz", "?");
			int8_t nv = (int8_t)((uint8_t)st[m.second].a.get() ^ 1);
			expect(mc::fmt("w%x", (uint8_t)nv) + pre + "/a", "!");
			MC_CHECK(ex, "store", st[m.second].a.get() == nv, "not written");
		}
		if(map.empty())
			e = "?";
		std::string l = req("l");
		MC_CHECK(ex, "list", Sys::sorted(l) == Sys::sorted(e), "got\n%s, expected\n%s", l.c_str(), e.c_str());
		// Abbreviated prefixes.
		for(char const* p : {"/a", "/aa", "/aaa", "/b", "/b2", "/b22", "/c", "/ca", "/caa", "/e", "/0"}) {
			std::vector<int> found;
			std::string x = "?";
			for(auto& m : map)
				if(m.first.compare(0, strlen(p), p) == 0)
					found.push_back(m.second);
			if(map.size() == 1)
				continue; // the prefix is not relevant
			if(map.count(p))
				x = mc::fmt("%x", (uint8_t)st[map[p]].a.get());
			else if(found.size() == 1)
				x = mc::fmt("%x", (uint8_t)st[found[0]].a.get());
			expect(std::string("r") + p + "/a", x);
		}
		expect("r/a", map.size() == 1 ? mc::fmt("%x", (uint8_t)st[map.begin()->second].a.get()) : "?");
		if(map.size() != 1)
			expect("r/aa", "?");
	}
}

} // namespace

void mc::setup(bool t)
{
	mc::add("values", "a write of every value (22 forms) to every object, sequences of 2", 8,
		[](Explorer& ex) { values(ex, 2); });
	mc::add("alias", "all sequences of 3 requests around aliases", 8,
		[](Explorer& ex) { run(ex, aliasReqs, 3, aliasFin); });
	mc::add("macro", "all sequences of 3 requests around macros", 8,
		[](Explorer& ex) { run(ex, macroReqs, 3, macroFin); });
	if(!C::CompressStreams) {
		mc::add("stream", "all sequences of 3 requests or application calls around streams and tracing", 8,
			[](Explorer& ex) { run(ex, streamReqs, 3, streamFin); });
		mc::add("trace", "same, with tracing set up", 8,
			[](Explorer& ex) { run(ex, streamReqs, 3, streamFin, {"mM|e,|r/a", "tMA", "\2"}); });
		if(t)
			mc::add("stream4", "all sequences of 4 requests or application calls around streams and tracing", 8,
				[](Explorer& ex) { run(ex, streamReqs, 4, streamFin); }, false);
	}
	mc::add("mixed", "all sequences of 3 requests of all kinds", 8, [](Explorer& ex) { run(ex, mixed(), 3, {"r/a", "A", "?"}); });
	mc::add("memory", "reading and writing of memory: all lengths up to 140 bytes, at several offsets", 8, memory);
	mc::add("mapping", "mapping and unmapping of stores: sequences of 3", 8, [](Explorer& ex) { mapping(ex, 3); });
	if(t) {
		mc::add("values3", "sequences of 3 writes", 64, [](Explorer& ex) { values(ex, 3); }, false);
		mc::add("alias4", "sequences of 4 requests around aliases", 16, [](Explorer& ex) { run(ex, aliasReqs, 4, aliasFin); }, false);
		mc::add("macro4", "sequences of 4 requests around macros", 16, [](Explorer& ex) { run(ex, macroReqs, 4, macroFin); }, false);
		mc::add("mixed4", "sequences of 4 requests of all kinds", 16, [](Explorer& ex) { run(ex, mixed(), 4, {"r/a", "A", "?"}); }, false);
		mc::add("mapping4", "mapping and unmapping of stores: sequences of 4", 16, [](Explorer& ex) { mapping(ex, 4); }, false);
	}
}

MC_MAIN
