// Conversions and string helpers: all values of small types, boundary values of others, all short strings.
// mc: property=P27 flavour=asan,opt,be
#include "common/mc.h"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <stored>
#include <string>
#include <vector>

using mc::Explorer;

namespace {

typedef long double LD; // holds every 64-bit integer exactly

// Everything around all limits.
template <typename T>
std::vector<T> const& values()
{
	static std::vector<T> v;
	if(!v.empty())
		return v;
	auto add = [&](LD x) {
		if(x >= (LD)std::numeric_limits<T>::lowest() && x <= (LD)std::numeric_limits<T>::max())
			v.push_back((T)x);
	};
	if(std::numeric_limits<T>::is_integer && sizeof(T) <= 2) {
		for(LD x = (LD)std::numeric_limits<T>::lowest(); x <= (LD)std::numeric_limits<T>::max(); x++)
			v.push_back((T)x);
		return v;
	}
	LD const lim[] = {0, 127, 128, 255, 32767, 32768, 65535, 2147483647.0L, 2147483648.0L, 4294967295.0L,
			  9223372036854775807.0L, 9223372036854775808.0L, 18446744073709551615.0L, 16777216.0L,
			  9007199254740992.0L};
	for(LD l : lim)
		for(int s = -1; s <= 1; s += 2)
			for(LD d : {0.0L, 1.0L, 2.0L, -1.0L, -2.0L})
				add(s * l + d);
	for(int b = 0; b < 64; b++) {
		add(powl(2, b));
		add(-powl(2, b));
		add(powl(2, b) + 1);
		add(powl(2, b) - 1);
	}
	if constexpr(!std::numeric_limits<T>::is_integer) {
		for(LD l : lim)
			for(int s = -1; s <= 1; s += 2)
				for(LD d : {0.25L, 0.5L, 0.75L, -0.25L, -0.5L, -0.75L})
					add(s * l + d);
		typedef std::numeric_limits<T> L;
		for(T x : {L::min(), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::epsilon(), L::denorm_min(), (T)1e10, (T)-1e10,
			   (T)1e19, (T)1e20, (T)-1e19, (T)3e38, (T)-3e38})
			v.push_back(x);
		// The values next to the limits.
		for(size_t i = 0, n = v.size(); i < n; i++) {
			v.push_back(std::nextafter(v[i], std::numeric_limits<T>::infinity()));
			v.push_back(std::nextafter(v[i], -std::numeric_limits<T>::infinity()));
		}
	}
	return v;
}

template <typename T>
struct Name;
#define NAME(t)                        \
	template <>                    \
	struct Name<t> {               \
		static char const* n() \
		{                      \
			return #t;     \
		}                      \
	};
NAME(bool)
NAME(char)
NAME(int8_t)
NAME(uint8_t)
NAME(int16_t)
NAME(uint16_t)
NAME(int32_t)
NAME(uint32_t)
NAME(int64_t)
NAME(uint64_t)
NAME(long long)
NAME(unsigned long long)
NAME(float)
NAME(double)

template <typename R, typename T>
void cast(Explorer& ex)
{
	auto const& v = values<T>();
	for(T x : v) {
		R got = saturated_cast<R>(x);
		LD lx = (LD)x, lg = (LD)got;
		LD hi = (LD)std::numeric_limits<R>::max(), lo = (LD)std::numeric_limits<R>::lowest();
		bool ok;
		if(std::is_same<R, bool>::value)
			ok = got == (R)(fabsl(lx) >= 0.5L);
		else if(!std::numeric_limits<R>::is_integer)
			ok = lx > hi || lx < lo ? lg == lx || lg == (lx > 0 ? hi : lo) || std::isinf((double)got)
						: got == (R)x;
		else if(lx >= hi)
			ok = lg == hi;
		else if(lx <= lo)
			ok = lg == lo;
		else
			ok = std::numeric_limits<T>::is_integer ? lg == lx : lg == roundl(lx);
		MC_CHECK(ex, "cast", ok, "saturated_cast<%s>(%s %.20Lg) gives %.20Lg", Name<R>::n(), Name<T>::n(), lx, lg);
		ex.step();
	}
	ex.state(mc::hashStr(std::string(Name<R>::n()) + Name<T>::n()));
}

template <typename T>
void casts(Explorer& ex)
{
	cast<bool, T>(ex);
	cast<char, T>(ex);
	cast<int8_t, T>(ex);
	cast<uint8_t, T>(ex);
	cast<int16_t, T>(ex);
	cast<uint16_t, T>(ex);
	cast<int32_t, T>(ex);
	cast<uint32_t, T>(ex);
	cast<int64_t, T>(ex);
	cast<uint64_t, T>(ex);
	cast<long long, T>(ex);
	cast<unsigned long long, T>(ex);
	cast<float, T>(ex);
	cast<double, T>(ex);
}

std::string bytes(void const* p, size_t n)
{
	return std::string((char const*)p, n);
}
std::string reversed(std::string const& s)
{
	return std::string(s.rbegin(), s.rend());
}
bool hostLittle()
{
	uint16_t x = 1;
	return *(char*)&x == 1;
}

template <typename T>
__attribute__((noinline)) void endian(Explorer& ex)
{
	for(T x : values<T>()) {
		std::string h = bytes(&x, sizeof(x)), r = reversed(h);
		std::string big = hostLittle() ? r : h, little = hostLittle() ? h : r;
		std::string store = stored::Config::StoreInLittleEndian ? little : big;
		struct {
			char const* n;
			T v;
			std::string const& want;
		} const c[] = {
			{"swap", stored::swap_endian(x), r},	      {"h2b", stored::endian_h2b(x), big},
			{"h2n", stored::endian_h2n(x), big},	      {"h2l", stored::endian_h2l(x), little},
			{"h2s", stored::endian_h2s(x), store},
		};
		for(auto const& i : c)
			MC_CHECK(ex, "endian", bytes(&i.v, sizeof(T)) == i.want, "%s %s of %s gives %s", i.n, Name<T>::n(),
				 mc::esc(h).c_str(), mc::esc(bytes(&i.v, sizeof(T))).c_str());
		auto get = [](std::string const& b) {
			T v;
			memcpy(&v, b.data(), sizeof(v));
			return v;
		};
		struct {
			char const* n;
			T v;
		} const d[] = {
			{"swap", stored::swap_endian(get(r))},	       {"b2h", stored::endian_b2h(get(big))},
			{"n2h", stored::endian_n2h(get(big))},	       {"l2h", stored::endian_l2h(get(little))},
			{"s2h", stored::endian_s2h(get(store))},
		};
		for(auto const& i : d)
			MC_CHECK(ex, "endian-inverse", bytes(&i.v, sizeof(T)) == h, "%s %s to %s gives %s", i.n, Name<T>::n(),
				 mc::esc(h).c_str(), mc::esc(bytes(&i.v, sizeof(T))).c_str());
		// Unaligned.
		for(size_t off = 0; off < 8; off++) {
			std::unique_ptr<char[]> b(new char[off + sizeof(T)]);
			char* p = b.get() + off;
			memcpy(p, big.data(), sizeof(T));
			T v1 = stored::endian_b2h<T>(p), v2 = stored::endian_n2h<T>(p);
			memcpy(p, little.data(), sizeof(T));
			T v3 = stored::endian_l2h<T>(p);
			memcpy(p, store.data(), sizeof(T));
			T v4 = stored::endian_s2h<T>(p);
			MC_CHECK(ex, "endian-unaligned",
				 bytes(&v1, sizeof(T)) == h && bytes(&v2, sizeof(T)) == h && bytes(&v3, sizeof(T)) == h
					 && bytes(&v4, sizeof(T)) == h,
				 "%s %s at offset %zu", Name<T>::n(), mc::esc(h).c_str(), off);
		}
		ex.step();
	}
	ex.state(mc::hashStr(Name<T>::n()));
}

// A copy without any spare bytes.
struct Exact {
	std::unique_ptr<char[]> p;
	size_t n;
	explicit Exact(std::string const& s)
		: p(new char[s.size()])
		, n(s.size())
	{
		memcpy(p.get(), s.data(), n);
	}
};

int sign(int x)
{
	return x < 0 ? -1 : x > 0 ? 1 : 0;
}

std::string str(Explorer& ex, int len, char const* alphabet, size_t n)
{
	std::string s;
	for(int i = 0; i < len; i++)
		s += alphabet[ex.choose((int)n)];
	return s;
}

void buffers(Explorer& ex, int maxLen)
{
	int len = ex.choose(maxLen + 1);
	char const al[] = {'\0', 'a', '\x80'};
	std::string a = str(ex, len, al, 3), b = str(ex, len, al, 3);
	{
		Exact x(a), y(b);
		stored::swap_endian(x.p.get(), a.size());
		MC_CHECK(ex, "swap-buffer", bytes(x.p.get(), a.size()) == reversed(a), "%s", mc::esc(a).c_str());
		stored::memcpy_swap(y.p.get(), x.p.get(), a.size());
		MC_CHECK(ex, "memcpy-swap", bytes(y.p.get(), a.size()) == a, "%s", mc::esc(a).c_str());
	}
	Exact x(a), y(b);
	int got = stored::memcmp_swap(x.p.get(), y.p.get(), a.size());
	int want = memcmp(a.data(), reversed(b).data(), a.size());
	MC_CHECK(ex, "memcmp-swap", sign(got) == sign(want), "%s, %s gives %d", mc::esc(a).c_str(), mc::esc(b).c_str(), got);
	ex.step();
	ex.state((uint64_t)len);
}

void strings(Explorer& ex, int maxLen)
{
	char const al[] = {'\0', 'a', 'b', '\xff'};
	int la = ex.shardChoose(maxLen + 1), lb = ex.choose(maxLen + 1);
	std::string a = str(ex, la, al, 4), b = str(ex, lb, al, 4);
	Exact x(a), y(b);
	int got = stored::strncmp(x.p.get(), x.n, y.p.get(), y.n);
	// As C strings, with a maximum length.
	std::string ca(a.c_str()), cb(b.c_str());
	int want = sign(ca.compare(cb));
	MC_CHECK(ex, "strncmp", sign(got) == want, "%s, %s gives %d", mc::esc(a).c_str(), mc::esc(b).c_str(), got);
	std::string z = b + std::string(1, '\0');
	Exact yz(z);
	if(cb.size() == b.size()) {
		got = stored::strncmp(x.p.get(), x.n, yz.p.get());
		MC_CHECK(ex, "strncmp-terminated", sign(got) == want, "%s, %s gives %d", mc::esc(a).c_str(), mc::esc(b).c_str(), got);
	}
	// Copy a into a buffer with the length of b.
	std::string before(b.size(), '#');
	Exact dst(before);
	std::string az = a + std::string(1, '\0');
	Exact src(a.size() >= b.size() ? a : az);
	size_t n = stored::strncpy(dst.p.get(), src.p.get(), dst.n);
	size_t wn = std::min(ca.size(), b.size());
	MC_CHECK(ex, "strncpy", n == wn && bytes(dst.p.get(), n) == ca.substr(0, wn), "%s to %zu bytes gives %zu: %s", mc::esc(a).c_str(),
		 b.size(), n, mc::esc(bytes(dst.p.get(), dst.n)).c_str());
	MC_CHECK(ex, "strncpy-beyond", bytes(dst.p.get() + n, dst.n - n) == std::string(dst.n - n, '#'), "%s to %zu bytes touches more: %s",
		 mc::esc(a).c_str(), b.size(), mc::esc(bytes(dst.p.get(), dst.n)).c_str());
	ex.step();
	ex.state((uint64_t)(la * 16 + lb));
}

// Undoes string_literal().
bool unescape(std::string const& s, std::string& r)
{
	r.clear();
	for(size_t i = 0; i < s.size(); i++) {
		if((unsigned char)s[i] < 0x20 || (unsigned char)s[i] >= 0x7f)
			return false;
		if(s[i] != '\\') {
			r += s[i];
			continue;
		}
		if(++i >= s.size())
			return false;
		switch(s[i]) {
		case '0': r += '\0'; break;
		case 'r': r += '\r'; break;
		case 'n': r += '\n'; break;
		case 't': r += '\t'; break;
		case '\\': r += '\\'; break;
		case 'x': {
			if(i + 2 >= s.size() || !isxdigit(s[i + 1]) || !isxdigit(s[i + 2]))
				return false;
			r += (char)std::stoi(s.substr(i + 1, 2), nullptr, 16);
			i += 2;
			break;
		}
		default: return false;
		}
	}
	return true;
}

void literals(Explorer& ex, int maxLen)
{
	char const al[] = {'\0', '\r', '\n', '\t', '\\', 'x', '0', 'a', '\x1f', ' ', '~', '\x7f', '\x80', '\xff'};
	int len = ex.choose(maxLen + 1);
	bool prefix = ex.choose(2);
	std::string s;
	if(len == 1)
		s = std::string(1, (char)ex.choose(256));
	else
		s = str(ex, len, al, sizeof(al));
	Exact x(s);
	auto got = stored::string_literal(x.p.get(), x.n, prefix ? "> " : nullptr);
	std::string g(got.c_str(), got.size()), back;
	if(prefix) {
		MC_CHECK(ex, "literal-prefix", g.substr(0, 2) == "> ", "%s", mc::esc(g).c_str());
		g.erase(0, 2);
	}
	MC_CHECK(ex, "literal", unescape(g, back) && back == s, "%s gives %s", mc::esc(s).c_str(), mc::esc(g).c_str());
	ex.step();
	ex.state((uint64_t)len);
}

} // namespace

void mc::setup(bool)
{
#define CASTS(t) \
	add("cast-" #t, "all pairs of arithmetic types; all values of 8 and 16-bit types, all values around all limits of others", 1, casts<t>)
	CASTS(bool);
	CASTS(char);
	CASTS(int8_t);
	CASTS(uint8_t);
	CASTS(int16_t);
	CASTS(uint16_t);
	CASTS(int32_t);
	CASTS(uint32_t);
	CASTS(int64_t);
	CASTS(uint64_t);
	CASTS(long long);
	CASTS(unsigned long long);
	CASTS(float);
	CASTS(double);
#define ENDIAN(t) add("endian-" #t, "all values of 8 and 16-bit types, all values around all limits of others, all alignments", 1, endian<t>)
	ENDIAN(bool);
	ENDIAN(char);
	ENDIAN(int8_t);
	ENDIAN(uint8_t);
	ENDIAN(int16_t);
	ENDIAN(uint16_t);
	ENDIAN(int32_t);
	ENDIAN(uint32_t);
	ENDIAN(int64_t);
	ENDIAN(uint64_t);
	ENDIAN(float);
	ENDIAN(double);
	add("buffers", "all pairs of buffers of up to 5 (thorough: 6) bytes out of an alphabet of 3", 1, [](Explorer& ex) { buffers(ex, ex.thorough ? 6 : 5); });
	add("strings", "all pairs of strings of up to 4 (thorough: 5) bytes out of an alphabet of 4", 5,
	    [](Explorer& ex) { strings(ex, ex.thorough ? 5 : 4); });
	add("literals", "all strings of up to 4 (thorough: 5) bytes out of an alphabet of 14, and all single bytes", 1,
	    [](Explorer& ex) { literals(ex, ex.thorough ? 5 : 4); });
}

MC_MAIN
