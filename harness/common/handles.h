// Drives all kinds of handles of HandleStore; shared by h_handles and h_hooks.
#ifndef VERIF_HANDLES_H
#define VERIF_HANDLES_H
#define STORED_DEFAULT_FUNCTION_CALLBACK_NOT
#include "HandleStore.h"
#include "common/mc.h"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <stored>
#include <string>
#include <vector>

using mc::Explorer;

namespace {

typedef std::string Bytes;

struct Event {
	char kind; // E entryX, X exitX, e entryRO, x exitRO, c changed, f function
	int type = 0;
	size_t offset = 0, len = 0;
	bool changed = false;
	Bytes data; // contents at that moment
	std::string name;
};

template <typename T>
Bytes bytesOf(T v)
{
	return Bytes((char const*)&v, sizeof(v));
}

// Memory of a store is poisoned outside of accesses.
__attribute__((no_sanitize("address"), noinline)) void peek(char* dst, char const volatile* src, size_t n)
{
	for(size_t i = 0; i < n; i++)
		((char volatile*)dst)[i] = src[i];
}

// A store that records all hooks.
class HStore : public STORE_T(HStore, stored::HandleStoreBase) {
	STORE_CLASS(HStore, stored::HandleStoreBase)
public:
	std::vector<Event> log;
	HStore() is_default
	// Values behind the functions.
	int16_t v_fi = 3;
	double v_fd = 2.5;
	bool v_fb = true;
	void* v_fp = nullptr;
	Bytes v_fs = "abc", v_fbl = Bytes("\1\2\3", 3);
	int32_t v_farr[2] = {11, 22};
	bool badCall = false;

	char const* raw()
	{
		return (char const*)buffer();
	}
	Bytes snap()
	{
		static char b[sizeof(stored::HandleStoreData::buffer)];
		peek(b, raw(), sizeof(b));
		return Bytes(b, sizeof(b));
	}
	static size_t rawSize()
	{
		return sizeof(stored::HandleStoreData::buffer);
	}
	size_t offsetOf(void* b)
	{
		return (size_t)((char*)b - raw());
	}
	void rec(char k, stored::Type::type t, void* b, size_t n, bool ch = false)
	{
		Event e;
		e.kind = k;
		e.type = (int)t;
		e.offset = offsetOf(b);
		e.len = n;
		e.changed = ch;
		if(e.offset + n <= rawSize())
			e.data = snap().substr(e.offset, n);
		log.push_back(e);
	}
	void __hookEntryX(stored::Type::type t, void* b, size_t n) noexcept
	{
		rec('E', t, b, n);
		base::__hookEntryX(t, b, n);
	}
	void __hookExitX(stored::Type::type t, void* b, size_t n, bool c) noexcept
	{
		rec('X', t, b, n, c);
		base::__hookExitX(t, b, n, c);
	}
	void __hookEntryRO(stored::Type::type t, void* b, size_t n) noexcept
	{
		rec('e', t, b, n);
		base::__hookEntryRO(t, b, n);
	}
	void __hookExitRO(stored::Type::type t, void* b, size_t n) noexcept
	{
		rec('x', t, b, n);
		base::__hookExitRO(t, b, n);
	}
	void ch(char const* n)
	{
		Event e;
		e.kind = 'c';
		e.name = n;
		log.push_back(e);
	}
#define CH(x) \
	void __##x##__changed() noexcept { ch(#x); }
	CH(b) CH(i8) CH(u8) CH(i16) CH(u16) CH(i32) CH(u32) CH(i64) CH(u64) CH(f) CH(d) CH(p32) CH(p64)
	CH(bl) CH(s) CH(s0) CH(arr_0) CH(arr_1) CH(arr_2) CH(sarr_0) CH(sarr_1) CH(bl1)
#undef CH

	template <typename T>
	void fun(bool set, T& value, T& v)
	{
		if(!stored::Config::UnalignedAccess && (uintptr_t)&value % std::min(sizeof(T), sizeof(void*)))
			badCall = true;
		if(set)
			v = value;
		else
			value = v;
	}
	size_t funb(bool set, char* value, size_t len, Bytes& v, size_t max)
	{
		if(len > max)
			badCall = true;
		if(set)
			v.assign(value, len);
		else {
			len = std::min(len, v.size());
			memcpy(value, v.data(), len);
		}
		return len;
	}
	void __fi(bool set, int16_t& value)
	{
		fun(set, value, v_fi);
	}
	void __fd(bool set, double& value)
	{
		fun(set, value, v_fd);
	}
	void __fb(bool set, bool& value)
	{
		fun(set, value, v_fb);
	}
	void __fp(bool set, void*& value)
	{
		fun(set, value, v_fp);
	}
	void __farr_0(bool set, int32_t& value)
	{
		fun(set, value, v_farr[0]);
	}
	void __farr_1(bool set, int32_t& value)
	{
		fun(set, value, v_farr[1]);
	}
	size_t __fs(bool set, char* value, size_t len)
	{
		return funb(set, value, len, v_fs, 4);
	}
	size_t __fbl(bool set, void* value, size_t len)
	{
		return funb(set, (char*)value, len, v_fbl, 3);
	}
};

// One object, with all of the ways to access it.
struct Object {
	std::string cname, name;
	stored::Type::type type;
	size_t size; // of the value
	Bytes init;
	bool function;
	std::vector<std::string> hs; // names of the handles
	// Value in host order. Return false when the handle reports an error.
	std::function<Bytes(HStore&, int h)> get;
	std::function<void(HStore&, int h, Bytes const&)> set;
	std::vector<Bytes> values;
	size_t offset = (size_t)-1;
};

template <typename T>
T as(Bytes const& b)
{
	T v;
	memcpy((void*)&v, b.data(), sizeof(T));
	return v;
}

template <typename T>
std::vector<Bytes> valuesOf()
{
	std::vector<Bytes> r;
	if(std::is_same<T, bool>::value) {
		r = {bytesOf(false), bytesOf(true)};
	} else if(std::is_same<T, float>::value) {
		for(float f : {0.0f, -0.0f, 1.5f, -2.25e-30f, INFINITY, NAN})
			r.push_back(bytesOf(f));
	} else if(std::is_same<T, double>::value) {
		for(double f : {0.0, -0.0, 1.5, -1.0e300, -(double)INFINITY, (double)NAN})
			r.push_back(bytesOf(f));
	} else {
		Bytes z(sizeof(T), '\0'), o(sizeof(T), '\xff'), i, lo, hi;
		for(size_t k = 0; k < sizeof(T); k++)
			i += (char)(0x81 + 0x11 * k);
		lo = z;
		lo[0] = 1;
		hi = z;
		hi[sizeof(T) - 1] = (char)0x80;
		r = {z, o, i, lo};
		if(sizeof(T) > 1)
			r.push_back(hi);
	}
	return r;
}

// An unaligned buffer without spare bytes.
struct Buf {
	std::unique_ptr<char[]> b;
	char* p;
	Buf(size_t n, size_t shift)
		: b(new char[n + shift])
		, p(b.get() + shift)
	{
		memset(p, 0x5a, n);
	}
};

template <typename T, typename H>
Bytes rawGet(H&& v, size_t len, size_t shift)
{
	Buf b(sizeof(T), shift);
	size_t n = v.get(b.p, len);
	return n == sizeof(T) ? Bytes(b.p, sizeof(T)) : mc::fmt("returned %zu", n);
}

template <typename T, typename H>
void rawSet(Explorer& ex, H&& v, Bytes const& x, size_t len, size_t shift)
{
	Buf b(sizeof(T), shift);
	memcpy(b.p, x.data(), x.size());
	size_t n = v.set(b.p, len);
	MC_CHECK(ex, "returned", n == sizeof(T), "set returned %zu", n);
	MC_CHECK(ex, "source", !memcmp(b.p, x.data(), x.size()), "set changed its source to %s",
		 mc::esc(Bytes(b.p, x.size())).c_str());
}

Explorer* g_ex;

template <typename T, typename A>
Object fixedVar(char const* cname, char const* name, T init, A acc)
{
	Object o;
	o.cname = cname;
	o.name = name;
	o.type = stored::toType<T>::type;
	o.size = sizeof(T);
	o.init = bytesOf(init);
	o.function = false;
	o.values = valuesOf<T>();
	o.hs = {"accessor",	    "accessor.variable()", "accessor conversion", "variant<T>",
		"variant buffer",   "variant unaligned",   "find<T>",		  "find buffer",
		"find().variable()", "freeVariable",	   "store.variable<T>()", "copied variable",
		"assigned variant", "Variant(Variable)"};
	std::string n = name;
	o.get = [acc, n](HStore& s, int h) -> Bytes {
		auto& a = acc(s);
		switch(h) {
		case 0: return bytesOf<T>(a.get());
		case 1: return bytesOf<T>(a.variable().get());
		case 2: return bytesOf<T>((T)a);
		case 3: return bytesOf<T>(a.variant().template get<T>());
		case 4: return rawGet<T>(a.variant(), sizeof(T), 0);
		case 5: return rawGet<T>(a.variant(), 0, 1);
		case 6: return bytesOf<T>(s.find(n.c_str()).template get<T>());
		case 7: return rawGet<T>(s.find(n.c_str()), 0, 0);
		case 8: return bytesOf<T>(s.find(n.c_str()).template variable<T>().get());
		case 9: return bytesOf<T>(HStore::freeVariable<T>(n.c_str()).apply(s).get());
		case 10: return bytesOf<T>(s.variable<T>(n.c_str()).get());
		case 11: {
			auto v = a.variable();
			auto w = v;
			decltype(v) y;
			y = w;
			return bytesOf<T>((T)y);
		}
		case 12: {
			stored::Variant<HStore> v;
			v = s.find(n.c_str());
			auto w = v;
			return bytesOf<T>(w.template get<T>());
		}
		default: return bytesOf<T>(stored::Variant<HStore>(a.variable()).template get<T>());
		}
	};
	o.set = [acc, n](HStore& s, int h, Bytes const& b) {
		auto& a = acc(s);
		T v = as<T>(b);
		switch(h) {
		case 0: a.set(v); break;
		case 1: a.variable().set(v); break;
		case 2: a = v; break;
		case 3: a.variant().template set<T>(v); break;
		case 4: rawSet<T>(*g_ex, a.variant(), b, sizeof(T), 0); break;
		case 5: rawSet<T>(*g_ex, a.variant(), b, 0, 1); break;
		case 6: s.find(n.c_str()).template set<T>(v); break;
		case 7: rawSet<T>(*g_ex, s.find(n.c_str()), b, 0, 0); break;
		case 8: s.find(n.c_str()).template variable<T>() = v; break;
		case 9: HStore::freeVariable<T>(n.c_str()).apply(s).set(v); break;
		case 10: s.variable<T>(n.c_str()).set(v); break;
		case 11: {
			auto x = a.variable();
			auto w = x;
			decltype(x) y;
			y = w;
			y = v;
			break;
		}
		case 12: {
			stored::Variant<HStore> x;
			x = s.find(n.c_str());
			auto w = x;
			w.template set<T>(v);
			break;
		}
		default: stored::Variant<HStore>(a.variable()).template set<T>(v);
		}
	};
	return o;
}

template <typename T, typename A>
Object fixedFun(char const* cname, char const* name, T init, A acc)
{
	Object o;
	o.cname = cname;
	o.name = name;
	o.type = (stored::Type::type)(stored::toType<T>::type | stored::Type::FlagFunction);
	o.size = sizeof(T);
	o.init = bytesOf(init);
	o.function = true;
	o.values = valuesOf<T>();
	o.hs = {"accessor",   "accessor()",	   "function()",	  "function unaligned",
		"variant<T>", "variant unaligned", "find().function()", "freeFunction",
		"store.function<T>()", "find buffer"};
	std::string n = name;
	o.get = [acc, n](HStore& s, int h) -> Bytes {
		auto& a = acc(s);
		switch(h) {
		case 0: return bytesOf<T>(a.get());
		case 1: return bytesOf<T>(a());
		case 2: return bytesOf<T>(a.function()());
		case 3: return rawGet<T>(a.function(), sizeof(T), 1);
		case 4: return bytesOf<T>(a.variant().template get<T>());
		case 5: return rawGet<T>(a.variant(), 0, 1);
		case 6: return bytesOf<T>(s.find(n.c_str()).template function<T>().get());
		case 7: return bytesOf<T>(HStore::freeFunction<T>(n.c_str()).apply(s).get());
		case 8: return bytesOf<T>(s.function<T>(n.c_str())());
		default: return rawGet<T>(s.find(n.c_str()), sizeof(T), 0);
		}
	};
	o.set = [acc, n](HStore& s, int h, Bytes const& b) {
		auto& a = acc(s);
		T v = as<T>(b);
		switch(h) {
		case 0: a.set(v); break;
		case 1: a(v); break;
		case 2: a.function()(v); break;
		case 3: {
			auto f = a.function();
			rawSet<T>(*g_ex, f, b, sizeof(T), 1);
			break;
		}
		case 4: a.variant().template set<T>(v); break;
		case 5: rawSet<T>(*g_ex, a.variant(), b, 0, 1); break;
		case 6: s.find(n.c_str()).template function<T>() = v; break;
		case 7: HStore::freeFunction<T>(n.c_str()).apply(s).set(v); break;
		case 8: s.function<T>(n.c_str())(v); break;
		default: rawSet<T>(*g_ex, s.find(n.c_str()), b, sizeof(T), 0);
		}
	};
	return o;
}

// What reading all of a string or blob gives.
template <typename H>
Bytes wholeGet(H&& v, size_t size, bool str)
{
	Buf b(size, 1);
	size_t n = v.get(b.p, size);
	if(n > size)
		return mc::fmt("returned %zu", n);
	if(str && n < size && b.p[n])
		return "not terminated";
	return Bytes(b.p, n);
}

template <typename A>
Object special(char const* cname, char const* name, stored::Type::type t, size_t size, Bytes init,
	       std::vector<Bytes> values, A acc)
{
	Object o;
	o.cname = cname;
	o.name = name;
	o.type = t;
	o.size = size;
	o.init = init;
	o.function = stored::Type::isFunction(t);
	o.values = values;
	o.hs = {"accessor", "variant", "find"};
	std::string n = name;
	bool str = ((int)t & ~stored::Type::FlagFunction) == stored::Type::String;
	bool f = o.function;
	o.get = [acc, n, size, str, f](HStore& s, int h) -> Bytes {
		auto& a = acc(s);
		bool c = str && !f;
		switch(h) {
		case 0: return wholeGet(a, size, c);
		case 1: return wholeGet(a.variant(), size, c);
		default: return wholeGet(s.find(n.c_str()), size, c);
		}
	};
	o.set = [acc, n, size](HStore& s, int h, Bytes const& b) {
		auto& a = acc(s);
		Buf x(b.size(), 1);
		memcpy(x.p, b.data(), b.size());
		size_t r = 0;
		switch(h) {
		case 0: r = a.set(x.p, b.size()); break;
		case 1: r = a.variant().set(x.p, b.size()); break;
		default: r = s.find(n.c_str()).set(x.p, b.size());
		}
		if(b.find('\0') == std::string::npos || a.type() != stored::Type::String)
			MC_CHECK(*g_ex, "returned", r == std::min(size, b.size()), "set of %zu bytes returned %zu",
				 b.size(), r);
	};
	return o;
}

std::vector<Object> objects(Explorer& ex)
{
	typedef stored::Type T;
	std::vector<Object> r;
	g_ex = &ex;
#define V(t, c, n, i) \
	r.push_back(fixedVar<t>(#c, n, (t)(i), [](HStore& s) -> decltype(s.c)& { return s.c; }))
	V(bool, b, "/b", true);
	V(int8_t, i8, "/i8", -5);
	V(uint8_t, u8, "/u8", 0);
	V(int16_t, i16, "/i16", 0x1234);
	V(uint16_t, u16, "/u16", 0);
	V(int32_t, i32, "/i32", -70000);
	V(uint32_t, u32, "/u32", 0);
	V(int64_t, i64, "/i64", 0x123456789abc);
	V(uint64_t, u64, "/u64", 0);
	V(float, f, "/f", 1.5f);
	V(double, d, "/d", 0);
	V(void*, p64, "/p64", 0);
	V(int16_t, arr_0, "/arr[0]", 7);
	V(int16_t, arr_2, "/arr[2]", 7);
#undef V
#define F(t, c, n, i) \
	r.push_back(fixedFun<t>(#c, n, (t)(i), [](HStore& s) -> decltype(s.c)& { return s.c; }))
	F(int16_t, fi, "/fi", 3);
	F(double, fd, "/fd", 2.5);
	F(bool, fb, "/fb", true);
	F(void*, fp, "/fp", 0);
	F(int32_t, farr_1, "/farr[1]", 22);
#undef F
	using std::string;
#define S(t, c, n, z, i, ...) \
	r.push_back(special(#c, n, t, z, i, __VA_ARGS__, [](HStore& s) -> decltype(s.c)& { return s.c; }))
	S(T::Blob, bl, "/bl", 7, Bytes(7, '\0'),
	  {Bytes("1234567"), Bytes(7, '\0'), Bytes("abc"), Bytes("\0\1", 2), Bytes("123456789"), Bytes()});
	S(T::Blob, bl1, "/bl1", 1, Bytes(1, '\0'), {Bytes("x"), Bytes("yz"), Bytes(1, '\0'), Bytes()});
	S(T::String, s, "/s", 5, "init",
	  {Bytes("init"), Bytes(), Bytes("a"), Bytes("abcde"), Bytes("abcdefg"), Bytes("in\0xy", 5), Bytes("in"),
	   Bytes("\xff\x80")});
	S(T::String, s0, "/s0", 5, Bytes(),
	  {Bytes("init"), Bytes(), Bytes("a"), Bytes("abcde"), Bytes("abcdefg"), Bytes("\0bc", 3)});
	S(T::String, sarr_0, "/sarr[0]", 2, Bytes(), {Bytes("ab"), Bytes("c"), Bytes(), Bytes("def")});
	S((T::type)(T::String | T::FlagFunction), fs, "/fs", 4, "abc", {Bytes("a"), Bytes("abcd"), Bytes("xyzwv"), Bytes()});
	S((T::type)(T::Blob | T::FlagFunction), fbl, "/fbl", 3, Bytes("\1\2\3", 3), {Bytes("a"), Bytes("abc"), Bytes("wxyz"), Bytes()});
#undef S
	for(auto& o : r)
		if(!o.function) {
			HStore s;
			auto v = s.find(o.name.c_str());
			MC_CHECK(ex, "find", v.valid(), "%s not found", o.name.c_str());
			o.offset = s.offsetOf(v.buffer());
		}
	return r;
}

// What the object holds after writing v.
Bytes after(Object const& o, Bytes const& old, Bytes const& v)
{
	switch((int)o.type) {
	case stored::Type::String: {
		size_t n = std::min(std::min(v.size(), v.find('\0')), o.size);
		return v.substr(0, n);
	}
	case stored::Type::Blob: {
		Bytes r = old;
		memcpy(&r[0], v.data(), std::min(v.size(), o.size));
		return r;
	}
	case stored::Type::String | stored::Type::FlagFunction:
	case stored::Type::Blob | stored::Type::FlagFunction: return v.substr(0, o.size);
	default: return v;
	}
}

// Contents of the buffer for a value.
Bytes stored_(Object const& o, Bytes const& v)
{
	Bytes r = v;
	if(stored::Type::isStoreSwapped(o.type))
		std::reverse(r.begin(), r.end());
	return r;
}

} // namespace
#endif
