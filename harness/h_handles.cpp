// All kinds of handles agree on the values of objects.
// mc: property=P12 flavour=asan,small,be,rel stores=HandleStore
#include "common/handles.h"

namespace {

struct Model {
	HStore s;
	std::vector<Object>& os;
	std::vector<Bytes> v;
	explicit Model(std::vector<Object>& o)
		: os(o)
	{
		for(auto& x : os)
			v.push_back(x.init);
	}
	void write(Explorer& ex, size_t i, int h, Bytes const& b)
	{
		Object& o = os[i];
		ex.trace("write %s as %s through %s", mc::esc(b).c_str(), o.name.c_str(), o.hs[(size_t)h].c_str());
		Bytes before = s.snap();
		o.set(s, h, b);
		v[i] = after(o, v[i], b);
		MC_CHECK(ex, "call", !s.badCall, "bad arguments passed to the function");
		// Only this object is touched.
		Bytes now = s.snap();
		for(size_t k = 0; k < before.size(); k++)
			if(o.function || k < o.offset || k >= o.offset + o.size + (o.type == stored::Type::String))
				MC_CHECK(ex, "other-bytes", before[k] == now[k], "byte %zu changed from %d to %d", k,
					 before[k], now[k]);
		raw(ex, i);
	}
	void raw(Explorer& ex, size_t i)
	{
		Object& o = os[i];
		if(o.function)
			return;
		Bytes e = stored_(o, v[i]);
		if(o.type == stored::Type::String)
			e += '\0';
		Bytes r = s.snap().substr(o.offset, e.size());
		MC_CHECK(ex, "buffer", r == e, "%s holds %s, expected %s", o.name.c_str(), mc::esc(r).c_str(),
			 mc::esc(e).c_str());
	}
	void read(Explorer& ex, size_t i, int h)
	{
		Object& o = os[i];
		Bytes before = s.snap();
		Bytes r = o.get(s, h);
		MC_CHECK(ex, "value", r == v[i], "%s through %s is %s, expected %s", o.name.c_str(),
			 o.hs[(size_t)h].c_str(), mc::esc(r).c_str(), mc::esc(v[i]).c_str());
		MC_CHECK(ex, "call", !s.badCall, "bad arguments passed to the function");
		MC_CHECK(ex, "read-writes", before == s.snap(), "reading %s changed the store",
			 o.name.c_str());
		ex.step();
	}
};

// Pairs of writes to one object, through any handles; everything reads back.
void pairs(Explorer& ex)
{
	auto os = objects(ex);
	size_t i = (size_t)ex.shardChoose((int)os.size());
	Object& o = os[i];
	Model m(os);
	m.raw(ex, i);
	for(size_t h = 0; h < o.hs.size(); h++)
		m.read(ex, i, (int)h);
	for(int k = 0; k < 2; k++) {
		int h = ex.choose((int)o.hs.size());
		m.write(ex, i, h, o.values[(size_t)ex.choose((int)o.values.size())]);
		for(size_t g = 0; g < o.hs.size(); g++)
			m.read(ex, i, (int)g);
	}
	for(size_t j = 0; j < os.size(); j++)
		if(j != i)
			m.read(ex, j, 0);
	ex.state(mc::hashStr(m.s.snap()));
	ex.obs(mc::hashStr(m.v[i]));
}

// Writes to different objects.
void mixed(Explorer& ex)
{
	auto os = objects(ex);
	Model m(os);
	for(int k = 0; k < 3; k++) {
		size_t i = (size_t)(k ? ex.choose((int)os.size()) : ex.shardChoose((int)os.size()));
		Object& o = os[i];
		m.write(ex, i, (int)((size_t)k % o.hs.size()), o.values[k == 2 ? 1 : (size_t)ex.choose(2)]);
	}
	for(size_t j = 0; j < os.size(); j++) {
		m.read(ex, j, 0);
		m.raw(ex, j);
	}
	ex.obs(mc::hashStr(m.s.snap()));
}

// Partial reads and writes of strings and blobs.
void partial(Explorer& ex)
{
	auto os = objects(ex);
	std::vector<size_t> sp;
	for(size_t i = 0; i < os.size(); i++)
		if(!stored::Type::isFixed(os[i].type))
			sp.push_back(i);
	size_t i = sp[(size_t)ex.shardChoose((int)sp.size())];
	Object& o = os[i];
	Model m(os);
	m.write(ex, i, 0, o.values[(size_t)ex.choose((int)o.values.size())]);
	size_t len = (size_t)ex.choose((int)o.size + 4);
	Buf b(len, (size_t)ex.choose(2));
	size_t n = m.s.find(o.name.c_str()).get(b.p, len);
	Bytes e = m.v[i].substr(0, std::min(len, o.size));
	ex.trace("get %zu bytes", len);
	MC_CHECK(ex, "partial-read", n == e.size() && !memcmp(b.p, e.data(), n), "read of %zu bytes of %s gives %s (%zu)",
		 len, mc::esc(m.v[i]).c_str(), mc::esc(Bytes(b.p, len)).c_str(), n);
	if(o.type == stored::Type::String && e.size() < std::min(len, o.size))
		MC_CHECK(ex, "terminated", !b.p[n], "not terminated");
	for(size_t k = n + (o.type == stored::Type::String); k < len; k++)
		MC_CHECK(ex, "beyond", b.p[k] == 0x5a, "byte %zu of the destination was written", k);
	// The vector and C-string overloads.
	auto x = m.s.find(o.name.c_str()).get();
	MC_CHECK(ex, "vector", x.size() == o.size && !memcmp(x.data(), m.v[i].data(), m.v[i].size()),
		 "get() gives %s", mc::esc(Bytes(x.data(), x.size())).c_str());
	if(((int)o.type & ~stored::Type::FlagFunction) == stored::Type::String) {
		char const* c[] = {"", "q", "qwertyuiop"};
		Bytes w = c[ex.choose(3)];
		m.s.find(o.name.c_str()).set(w.c_str());
		m.v[i] = after(o, m.v[i], w);
		m.raw(ex, i);
		for(int h = 0; h < 3; h++)
			m.read(ex, i, h);
	}
	ex.obs(mc::hashStr(e));
}

// Copies between stores; arrays by index; handles that are equal.
void copies(Explorer& ex)
{
	auto os = objects(ex);
	size_t i = (size_t)ex.shardChoose((int)os.size());
	Object& o = os[i];
	Model m(os), t(os);
	m.write(ex, i, 0, o.values[(size_t)ex.choose((int)o.values.size())]);
	t.write(ex, i, 0, o.values[(size_t)ex.choose((int)o.values.size())]);
	auto a = m.s.find(o.name.c_str()), b = t.s.find(o.name.c_str());
	MC_CHECK(ex, "equal", a == m.s.find(o.name.c_str()) && a != b, "comparison of handles");
	if(!o.function) {
		a.copy(b);
		m.v[i] = t.v[i];
		ex.trace("copy");
	}
	for(auto* x : {&m, &t}) {
		x->raw(ex, i);
		for(size_t h = 0; h < o.hs.size(); h++)
			x->read(ex, i, (int)h);
		for(size_t j = 0; j < os.size(); j++)
			if(j != i)
				x->read(ex, j, 0);
	}
	for(size_t j = 0; j < os.size(); j++) {
		auto c = m.s.find(os[j].name.c_str());
		MC_CHECK(ex, "equal", (a == c) == (i == j), "%s and %s", os[j].name.c_str(), o.name.c_str());
		MC_CHECK(ex, "type", c.type() == os[j].type && c.size() == os[j].size, "type or size of %s", os[j].name.c_str());
		if(os[j].function)
			continue;
		MC_CHECK(ex, "key", m.s.bufferToKey(c.buffer()) == c.key() && c.key() == os[j].offset, "key of %s",
			 os[j].name.c_str());
	}
}

// Array elements by index.
void arrays(Explorer& ex)
{
	auto os = objects(ex);
	Model m(os);
	int k = ex.shardChoose(7);
	HStore& s = m.s;
	ex.trace("index %d", k - 2);
	int x = k - 2;
	auto a = s.arr_a(x);
	MC_CHECK(ex, "array", a.valid() == (x >= 0 && x < 3), "arr[%d]", x);
	if(a.valid()) {
		a.set<int16_t>((int16_t)(100 + x));
		int16_t e[3] = {7, 7, 7};
		e[x] = (int16_t)(100 + x);
		MC_CHECK(ex, "array", s.arr_0.get() == e[0] && s.arr_1.get() == e[1] && s.arr_2.get() == e[2], "arr[%d]", x);
		for(int i = 0; i < 3; i++)
			MC_CHECK(ex, "array", s.arr_a(i).get<int16_t>() == e[i], "arr[%d]", x);
	}
	auto b = s.sarr_a(x);
	MC_CHECK(ex, "array", b.valid() == (x >= 0 && x < 2), "sarr[%d]", x);
	if(b.valid()) {
		b.set("xy");
		MC_CHECK(ex, "array", s.find(mc::fmt("/sarr[%d]", x).c_str()).get()[1] == 'y', "sarr[%d]", x);
		MC_CHECK(ex, "array", s.find(mc::fmt("/sarr[%d]", 1 - x).c_str()).get()[0] == 0, "sarr[%d]", x);
	}
	auto c = s.farr_a(x);
	MC_CHECK(ex, "array", c.valid() == (x >= 0 && x < 2), "farr[%d]", x);
	if(c.valid()) {
		c.set<int32_t>(-9);
		MC_CHECK(ex, "array", s.v_farr[x] == -9 && s.v_farr[1 - x] == 11 * (2 - x), "farr[%d]", x);
		MC_CHECK(ex, "array", c.get<int32_t>() == -9 && c.isFunction(), "farr[%d]", x);
	}
}

// Other views.
void convert(Explorer& ex)
{
	HStore s;
	ex.shardChoose(1);
	int64_t v[] = {0, -1, 127, 128, 255, 256, 32767, 32768, -32769, 2147483648ll, INT64_MIN, INT64_MAX};
	int64_t x = v[ex.choose(12)];
	s.i64 = x;
	MC_CHECK(ex, "as", s.i64.as<int8_t>() == std::max<int64_t>(-128, std::min<int64_t>(127, x)), "%lld", (long long)x);
	MC_CHECK(ex, "as", s.i64.variable().as<uint16_t>() == std::max<int64_t>(0, std::min<int64_t>(65535, x)), "%lld",
		 (long long)x);
	s.fd = (double)x;
	MC_CHECK(ex, "as", s.fd.as<int16_t>() == std::max<int64_t>(-32768, std::min<int64_t>(32767, x)), "%lld",
		 (long long)x);
	MC_CHECK(ex, "as", s.fd.function().as<uint8_t>() == std::max<int64_t>(0, std::min<int64_t>(255, x)), "%lld",
		 (long long)x);
}

} // namespace

void mc::setup(bool thorough)
{
	add("pairs", "every object, all pairs of handles and values, read through all handles", 26, pairs);
	add("mixed", "sequences of 3 writes to any objects", 13, mixed, thorough);
	add("partial", "strings and blobs: every length, value, alignment", 7, partial);
	add("copies", "copies between two stores of every object with all pairs of values", 13, copies);
	add("arrays", "array accessors with indices -2..4", 1, arrays);
	add("convert", "saturating reads", 1, convert);
}
MC_MAIN
