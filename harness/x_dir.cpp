// Lookup in and listing of a given binary directory, for the Python harnesses.
// mc: property=helper flavour=asan,be
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <libstored/directory.h>
#include <stored>
#include <string>
#include <vector>

namespace {

struct Fake {
	struct Data {
		char buffer[1U << 30U];
	};

	unsigned int f = 0;
	typedef uintptr_t Key;
	Key bufferToKey(void const* b) const noexcept { return (Key)b; }

	char* buffer() noexcept
	{
		return (char*)(uintptr_t)(1ULL << 32U);
	}

	size_t callback(bool, void*, size_t len, unsigned int f_)
	{
		f = f_;
		return len;
	}

	void hookEntryX(stored::Type::type, void*, size_t) noexcept {}
	void hookExitX(stored::Type::type, void*, size_t, bool) noexcept {}
	void hookEntryRO(stored::Type::type, void*, size_t) noexcept {}
	void hookExitRO(stored::Type::type, void*, size_t) noexcept {}
};

bool rd(void* p, size_t n)
{
	return fread(p, 1, n, stdin) == n;
}

struct Out {
	std::string s;

	void u8(unsigned x)
	{
		s += (char)x;
	}

	void u32(size_t x)
	{
		uint32_t y = (uint32_t)x;
		s.append((char const*)&y, 4);
	}
};

void listed(void*, char const* name, stored::Type::type type, void* buf, size_t len, void* arg)
{
	Out& o = *(Out*)arg;
	o.u8(1);
	o.u8(type);
	o.u32(len);
	o.u32((uintptr_t)buf - (stored::Type::isFunction(type) ? 0 : (uintptr_t)(1ULL << 32U)));
	o.u32(name ? strlen(name) : 0);
	if(name)
		o.s += name;
}

} // namespace

int main()
{
	uint32_t n;
	Fake fake;
	char tmp[1U << 17U];
	while(rd(&n, 4)) {
		uint8_t* dir = (uint8_t*)malloc(n);
		if(!rd(dir, n) || !rd(&n, 4))
			return 1;
		Out out;
		if(n & 0x80000000U) {
			n &= 0x7fffffffU;
			std::string prefix(n, ' ');
			if(!rd(&prefix[0], n) || !rd(&n, 4))
				return 1;
			stored::list(nullptr, fake.buffer(), dir, &listed, &out, prefix.empty() ? nullptr : prefix.c_str());
			// The overloads with a buffer must tell the same.
			{
				Out o2, o3, o4;
				stored::String::type buf;
				if(prefix.empty()) {
					stored::list(nullptr, fake.buffer(), dir, &listed, &o2, nullptr);
					stored::list(nullptr, fake.buffer(), dir, &buf, &listed, &o3, nullptr);
				} else {
					stored::list(nullptr, fake.buffer(), dir, &listed, &o2, prefix.c_str());
					buf = "left from before";
					stored::list(nullptr, fake.buffer(), dir, &buf, &listed, &o3, prefix.c_str());
				}
				stored::list(nullptr, fake.buffer(), dir, nullptr, &listed, &o4, prefix.empty() ? nullptr : prefix.c_str());
				auto count = [](std::string const& s, bool names, size_t& cnt) {
					for(size_t i = 0; i < s.size(); cnt++) {
						uint32_t l;
						memcpy(&l, &s[i + 10], 4);
						i += 14 + l;
						if(!names && l)
							return false;
					}
					return true;
				};
				size_t c1 = 0, c4 = 0;
				char const* bad = nullptr;
				if(o2.s != out.s)
					bad = "<listing again differs>";
				else if(o3.s != out.s)
					bad = "<listing with a buffer differs>";
				else if(!count(o4.s, false, c4) || !count(out.s, true, c1) || c1 != c4)
					bad = "<listing without names differs>";
				if(bad)
					listed(nullptr, bad, stored::Type::Int8, fake.buffer(), 1, &out);
			}
			out.u8(0);
		}
		while(n-- > 0) {
			uint32_t q;
			uint8_t term;
			if(!rd(&q, 4) || !rd(&term, 1))
				return 1;
			// Exact-size buffer, such that reading past the end or past the
			// maximum length is noticed.
			char* s = (char*)malloc(q + (term ? 1 : 0));
			if(!rd(s, q))
				return 1;
			if(term)
				s[q] = 0;
			stored::Variant<Fake> v = term ? stored::find(fake, dir, s) : stored::find(fake, dir, s, q);
			free(s);
			if(!v.valid()) {
				out.u8(0);
				continue;
			}
			out.u8(1);
			out.u8(v.type());
			out.u32(v.size());
			if(v.isFunction()) {
				fake.f = 0;
				if(v.size() <= sizeof(tmp))
					v.get(tmp, v.size());
				out.u32(fake.f);
			} else
				out.u32((uintptr_t)v.buffer() - (uintptr_t)fake.buffer());
		}
		free(dir);
		n = (uint32_t)out.s.size();
		fwrite(&n, 4, 1, stdout);
		fwrite(out.s.data(), 1, n, stdout);
		fflush(stdout);
	}
	return 0;
}
