// Notifications around every access.
// mc: property=P11 flavour=asan,small,be,rel stores=HandleStore
#include "common/handles.h"

namespace {

std::string show(std::vector<Event> const& l)
{
	std::string s;
	for(auto& e : l)
		s += e.kind == 'c' ? mc::fmt(" c(%s)", e.name.c_str())
				   : mc::fmt(" %c(type 0x%x at %zu len %zu%s)", e.kind, e.type, e.offset, e.len,
					     e.changed ? " changed" : "");
	return s;
}

Bytes contents(HStore& s, Object const& o)
{
	return s.snap().substr(o.offset, o.size + (o.type == stored::Type::String));
}

// What counts as the value of an object.
Bytes value(Object const& o, Bytes const& c)
{
	return o.type == stored::Type::String ? c.substr(0, c.find('\0')) : c;
}

void pair(Explorer& ex, Object const& o, std::vector<Event> const& l, size_t at, char in, char out, size_t atLeast)
{
	MC_CHECK(ex, "balanced", l.size() >= at + 2 && l[at].kind == in && l[at + 1].kind == out,
		 "%s: notifications are%s", o.name.c_str(), show(l).c_str());
	for(size_t k = at; k < at + 2; k++) {
		MC_CHECK(ex, "object", l[k].offset == o.offset && l[k].type == (int)o.type,
			 "%s (type 0x%x at %zu): notifications are%s", o.name.c_str(), (int)o.type, o.offset, show(l).c_str());
		MC_CHECK(ex, "size", l[k].len == l[at].len && l[k].len >= atLeast
					     && l[k].len <= o.size + (o.type == stored::Type::String),
			 "%s: %zu bytes accessed, notifications are%s", o.name.c_str(), atLeast, show(l).c_str());
	}
}

void checkRead(Explorer& ex, HStore& s, Object const& o, size_t n)
{
	if(o.function) {
		MC_CHECK(ex, "function", s.log.empty(), "call of %s: notifications%s", o.name.c_str(), show(s.log).c_str());
	} else {
		pair(ex, o, s.log, 0, 'e', 'x', n);
		MC_CHECK(ex, "balanced", s.log.size() == 2, "read of %s: notifications%s", o.name.c_str(),
			 show(s.log).c_str());
	}
	s.log.clear();
}

// A write changed the object from a to b.
void checkWrite(Explorer& ex, HStore& s, Object const& o, Bytes const& a, Bytes const& b, bool exact = true)
{
	auto& l = s.log;
	if(o.function) {
		MC_CHECK(ex, "function", l.empty(), "call of %s: notifications%s", o.name.c_str(), show(l).c_str());
		return;
	}
	size_t n = 0;
	for(size_t k = 0; k < a.size(); k++)
		if(a[k] != b[k])
			n = k + 1;
	pair(ex, o, l, 0, 'E', 'X', n);
	bool changed = value(o, a) != value(o, b);
	if(exact)
		MC_CHECK(ex, "changed", l[1].changed == changed, "%s from %s to %s: changed is %d", o.name.c_str(),
			 mc::esc(a).c_str(), mc::esc(b).c_str(), l[1].changed);
	MC_CHECK(ex, "changed", l[1].changed || !changed, "%s from %s to %s: not changed", o.name.c_str(),
		 mc::esc(a).c_str(), mc::esc(b).c_str());
	MC_CHECK(ex, "balanced", l.size() == (l[1].changed ? 3u : 2u), "write of %s: notifications%s", o.name.c_str(),
		 show(l).c_str());
	if(l[1].changed)
		MC_CHECK(ex, "who", l[2].kind == 'c' && l[2].name == o.cname, "write of %s: notifications%s",
			 o.name.c_str(), show(l).c_str());
	MC_CHECK(ex, "entry-data", l[0].data == a.substr(0, l[0].len), "%s: already modified at entry", o.name.c_str());
	MC_CHECK(ex, "exit-data", l[1].data == b.substr(0, l[1].len), "%s: not yet modified at exit", o.name.c_str());
	s.log.clear();
}

void doSet(Explorer& ex, HStore& s, Object& o, int h, Bytes const& v)
{
	Bytes a = o.function ? Bytes() : contents(s, o);
	ex.trace("write %s as %s through %s", mc::esc(v).c_str(), o.name.c_str(), o.hs[(size_t)h].c_str());
	s.log.clear();
	o.set(s, h, v);
	checkWrite(ex, s, o, a, o.function ? Bytes() : contents(s, o));
	ex.step();
}

void doGet(Explorer& ex, HStore& s, Object& o, int h)
{
	s.log.clear();
	Bytes r = o.get(s, h);
	checkRead(ex, s, o, stored::Type::isFixed(o.type) ? o.size : r.size());
	ex.step();
}

void pairs(Explorer& ex)
{
	auto os = objects(ex);
	size_t i = (size_t)ex.shardChoose((int)os.size());
	Object& o = os[i];
	HStore s;
	for(size_t g = 0; g < o.hs.size(); g++)
		doGet(ex, s, o, (int)g);
	for(int k = 0; k < 2; k++) {
		int h = ex.choose((int)o.hs.size());
		doSet(ex, s, o, h, o.values[(size_t)ex.choose((int)o.values.size())]);
		for(size_t g = 0; g < o.hs.size(); g++)
			doGet(ex, s, o, (int)g);
	}
	ex.state(mc::hashStr(s.snap()));
	ex.obs(mc::hashStr(s.snap()));
}

// Sequences of reads and writes of several objects.
void mixed(Explorer& ex)
{
	auto os = objects(ex);
	HStore s;
	for(int k = 0; k < 3; k++) {
		Object& o = os[(size_t)(k ? ex.choose((int)os.size()) : ex.shardChoose((int)os.size()))];
		int h = (int)((size_t)(k + 1) % o.hs.size());
		int c = ex.choose(3);
		if(c == 2)
			doGet(ex, s, o, h);
		else
			doSet(ex, s, o, h, o.values[(size_t)c]);
	}
	ex.obs(mc::hashStr(s.snap()));
}

// Explicit sections, partial reads, copies.
void sections(Explorer& ex)
{
	auto os = objects(ex);
	std::vector<size_t> vars;
	for(size_t i = 0; i < os.size(); i++)
		if(!os[i].function)
			vars.push_back(i);
	size_t i = vars[(size_t)ex.shardChoose((int)vars.size())];
	Object& o = os[i];
	HStore s, t;
	Bytes v1 = o.values[(size_t)ex.choose((int)o.values.size())];
	Bytes v2 = o.values[(size_t)ex.choose((int)o.values.size())];
	doSet(ex, s, o, 0, v1);
	doSet(ex, t, o, 0, v2);
	auto v = s.find(o.name.c_str());
	auto w = t.find(o.name.c_str());
	s.log.clear();
	t.log.clear();
	int what = ex.choose(6);
	ex.trace("section %d of %s", what, o.name.c_str());
	switch(what) {
	case 0: {
		Bytes a = contents(s, o), b = contents(t, o);
		v.copy(w);
		MC_CHECK(ex, "copied", contents(s, o).substr(0, value(o, b).size()) == value(o, b), "contents");
		checkRead(ex, t, o, o.size);
		checkWrite(ex, s, o, a, contents(s, o));
		break;
	}
	case 1:
		v.entryRO();
		v.exitRO();
		checkRead(ex, s, o, o.size);
		break;
	case 2: {
		size_t n = (size_t)ex.choose((int)o.size) + 1;
		v.entryRO(n);
		v.exitRO(n);
		MC_CHECK(ex, "size", s.log.size() == 2 && s.log[0].len == n && s.log[1].len == n, "length of section");
		break;
	}
	case 3: {
		Bytes a = contents(s, o);
		bool changed = ex.flip();
		v.entryX();
		if(changed)
			*(char*)v.buffer() ^= 1;
		auto c = v;
		v.exitX(changed);
		(void)c;
		checkWrite(ex, s, o, a, contents(s, o), false);
		break;
	}
	case 4: {
		// Any length.
		size_t n = stored::Type::isFixed(o.type) ? o.size : (size_t)ex.choose((int)o.size + 3);
		Buf b(n, 1);
		size_t r = v.get(b.p, n);
		checkRead(ex, s, o, r);
		break;
	}
	default: {
		// Handles are compared, copied and passed around without any access.
		auto c = v;
		v = w;
		bool e = v == w && c == s.find(o.name.c_str());
		MC_CHECK(ex, "equal", e, "handles differ");
		s.list([](HStore*, char const*, stored::Type::type, void*, size_t) {});
		MC_CHECK(ex, "none", s.log.empty() && t.log.empty(), "notifications without access:%s%s", show(s.log).c_str(),
			 show(t.log).c_str());
	}
	}
}

class Reply : public stored::ProtocolLayer {
public:
	std::string r;
	void encode(void const* b, size_t n, bool = true) override
	{
		r.append((char const*)b, n);
	}
	using ProtocolLayer::encode;
};

// Access by a debugger.
void debugger(Explorer& ex)
{
	auto os = objects(ex);
	size_t i = (size_t)ex.shardChoose((int)os.size());
	Object& o = os[i];
	HStore s;
	stored::Debugger d;
	d.map(s);
	Reply rep;
	rep.wrap(d);
	for(int k = 0; k < 2; k++) {
		Bytes a = o.function ? Bytes() : contents(s, o);
		s.log.clear();
		rep.r.clear();
		if(ex.flip()) {
			std::string m = "r" + o.name;
			ex.trace("%s", m.c_str());
			d.decode(&m[0], m.size());
			checkRead(ex, s, o, rep.r.size() / 2 < o.size ? rep.r.size() / 2 : 0);
		} else {
			Bytes v = o.values[(size_t)ex.choose((int)o.values.size())];
			if(stored::Type::isFixed(o.type))
				std::reverse(v.begin(), v.end()); // big endian
			std::string m = "w";
			for(char c : v)
				m += mc::fmt("%02x", (unsigned char)c);
			m += o.name;
			ex.trace("%s", m.c_str());
			d.decode(&m[0], m.size());
			if(s.log.empty()) {
				// Refused.
				MC_CHECK(ex, "refused", rep.r == "?" || o.function, "%s gives %s", m.c_str(), rep.r.c_str());
				continue;
			}
			checkWrite(ex, s, o, a, o.function ? Bytes() : contents(s, o));
		}
	}
}

} // namespace

void mc::setup(bool thorough)
{
	add("pairs", "every object, all pairs of handles and values, then read through all handles", 26, pairs);
	add("mixed", "sequences of 3 reads and writes of any objects", 13, mixed, thorough);
	add("sections", "explicit sections, partial reads, copies between stores, handles without access", 19, sections);
	add("debugger", "pairs of reads and writes by the debugger", 13, debugger);
}
MC_MAIN
