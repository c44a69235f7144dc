// FIFOs with a concurrent producer and consumer, under the C++ memory model.
// mc: property=P17 flavour=opt,rel wrap=memcpy,memmove,memset
// mc: flags=-fsanitize=thread,-fno-builtin-memcpy,-fno-builtin-memmove,-fno-builtin-memset,-U_FORTIFY_SOURCE
#include "common/mc.h"
#include "common/wmm.h"
#include <deque>
#include <new>
#include <stored>

using mc::Explorer;

namespace {

// Not via new: keep the object at the same place.
alignas(64) char g_mem[4096];

template <typename F>
F& make()
{
	static_assert(sizeof(F) <= sizeof(g_mem), "");
	return *new(g_mem) F();
}

// What goes in and comes out. Only used within one thread.
template <typename T>
struct Log {
	std::vector<T> v;
};

template <typename T>
void check(Explorer& ex, std::vector<T> const& in, std::vector<T> const& out, bool complete)
{
	for(size_t i = 0; i < out.size(); i++)
		if(i >= in.size() || !(out[i] == in[i]))
			ex.fail("order", mc::fmt("element %zu differs from what was pushed", i));
	if(complete && out.size() != in.size())
		ex.fail("lost", mc::fmt("%zu of %zu elements received", out.size(), in.size()));
}

// A value that consists of two parts, to see torn ones.
struct Pair {
	int a, b;
	Pair(int x = 0)
		: a(x)
		, b(-x)
	{}
	Pair(int x, int y)
		: a(x)
		, b(y)
	{}
	bool operator==(Pair const& o) const
	{
		return a == o.a && b == o.b;
	}
};

// Operations of both threads; a string of letters per thread.
template <typename T, size_t Cap>
void fifo(Explorer& ex, std::vector<char const*> const& prods, std::vector<char const*> const& conss, int offsets, int pre)
{
	typedef stored::Fifo<T, Cap> F;
	wmm::reset();
	int n = (int)(prods.size() * conss.size()) * offsets;
	int c = ex.shardChoose(n);
	int offset = c % offsets;
	c /= offsets;
	char const* prod = prods[(size_t)c % prods.size()];
	char const* cons = conss[(size_t)c / prods.size()];
	ex.trace("offset %d, producer %s, consumer %s", offset, prod, cons);
	F& f = make<F>();
	int next = 1;
	for(int i = 0; i < offset; i++) {
		f.push_back(T(100 + i));
		f.pop_front();
	}
	std::vector<T> in, out;
	in.reserve(32);
	out.reserve(32);
	bool bad = false;
	wmm::watch(&f, sizeof(f));
	wmm::run(
		ex, pre,
		[&]() {
			for(char const* p = prod; *p; p++) {
				size_t need = *p == '2' || *p == 'i' ? 2 : 1;
				if(*p == 'f' ? f.full() : f.space() < need)
					continue;
				T x(next), y(next + 1);
				switch(*p) {
				case 'f':
				case '1':
					f.push_back(x);
					break;
				case 'e':
					f.emplace_back(next);
					break;
				case '2': {
					T a[] = {x, y};
					f.push_back(a, 2);
					break;
				}
				case 'i':
					f.push_back({x, y});
					break;
				}
				next += (int)need;
				in.push_back(x);
				if(need == 2)
					in.push_back(y);
			}
		},
		[&]() {
			for(char const* p = cons; *p; p++) {
				switch(*p) {
				case 'p':
					if(!f.empty()) {
						out.push_back(f.front());
						f.pop_front();
					}
					break;
				case 'k': {
					size_t a = f.available();
					if(a > Cap)
						bad = true;
					for(size_t i = 0; i < a; i++)
						out.push_back(f.peek(i));
					if(a)
						f.pop_front(a);
					break;
				}
				case 'c': {
					size_t a = f.available_chunk();
					for(size_t i = 0; i < a; i++)
						out.push_back(f[i]);
					if(a)
						f.pop_front(a);
					break;
				}
				case 'v': {
					auto v = f.view();
					size_t a = v.size();
					if(a > Cap) {
						bad = true;
						break;
					}
					T tmp[Cap + 1];
					v.copy(tmp);
					for(size_t i = 0; i < a; i++)
						out.push_back(tmp[i]);
					f.pop_front(a);
					break;
				}
				case 'r':
					for(auto const& x : f)
						out.push_back(x);
					break;
				case 'x':
					// Drop everything there is.
					while(!f.empty()) {
						out.push_back(f.front());
						f.pop_front();
					}
					break;
				}
			}
		});
	if(bad)
		ex.fail("size", "more available than the capacity");
	check(ex, in, out, false);
	if(f.available() != in.size() - out.size())
		ex.fail("available", mc::fmt("%zu available, expected %zu", f.available(), in.size() - out.size()));
	ex.obs(out.size() * 100 + in.size());
	while(!f.empty()) {
		out.push_back(f.front());
		f.pop_front();
	}
	check(ex, in, out, true);
	// And it is still usable
	for(size_t i = 0; i < Cap; i++) {
		if(f.full())
			ex.fail("full", "full, when it should be empty");
		f.push_back(T((int)i));
	}
	if(!f.full())
		ex.fail("full", "not full");
}

char letter(int i)
{
	return (char)('a' + i);
}

// Producer ops: digit: push_back() a message of that length. a digit preceded by '+': append_back().
// '.': push_back() of the partial message. 'r': reset_back().
template <size_t Cap, size_t Msgs>
void msgfifo(Explorer& ex, std::vector<char const*> const& prods, std::vector<char const*> const& conss,
	std::vector<char const*> const& pres, int pre)
{
	typedef stored::MessageFifo<Cap, Msgs> F;
	wmm::reset();
	int c = ex.shardChoose((int)(prods.size() * conss.size() * pres.size()));
	char const* init = pres[(size_t)c % pres.size()];
	c /= (int)pres.size();
	char const* prod = prods[(size_t)c % prods.size()];
	char const* cons = conss[(size_t)c / prods.size()];
	ex.trace("init %s, producer %s, consumer %s", init, prod, cons);
	F& f = make<F>();
	std::vector<std::string> in, out;
	in.reserve(32);
	out.reserve(32);
	int next = 0;
	auto gen = [&](int len) {
		std::string s;
		for(int i = 0; i < len; i++)
			s += letter(next++ % 26);
		return s;
	};
	for(char const* p = init; *p; p++) {
		if(*p == 'p') {
			auto m = f.front();
			out.emplace_back(m.data(), m.size());
			f.pop_front();
		} else {
			std::string s = gen(*p - '0');
			if(!f.push_back(s.data(), s.size()))
				ex.fail("init", "push failed");
			in.push_back(s);
		}
	}
	if(!(std::vector<std::string>(in.begin(), in.begin() + (long)out.size()) == out))
		ex.fail("init", "wrong message");
	wmm::watch(&f, sizeof(f));
	wmm::run(
		ex, pre,
		[&]() {
			std::string part;
			part.reserve(32);
			for(char const* p = prod; *p; p++) {
				if(*p == '+') {
					p++;
					std::string s = gen(*p - '0');
					if(f.append_back(s.data(), s.size()))
						part += s;
				} else if(*p == '.') {
					if(f.push_back()) {
						in.push_back(part);
						part.clear();
					}
				} else if(*p == 'r') {
					f.reset_back();
					part.clear();
				} else if(*p == 's') {
					// Should fit, when there is enough space.
					size_t sp = f.space();
					if(sp > 0) {
						std::string s = gen(1);
						if(!f.push_back(s.data(), s.size()))
							wmm::violation("space", "push failed, while there is space");
						in.push_back(s);
					}
				} else {
					std::string s = gen(*p - '0');
					if(f.push_back(s.data(), s.size())) {
						in.push_back(part + s);
						part.clear();
					}
				}
			}
		},
		[&]() {
			for(char const* p = cons; *p; p++) {
				if(*p == 'p') {
					if(!f.empty()) {
						auto m = f.front();
						out.emplace_back(m.data(), m.size());
						f.pop_front();
					}
				} else if(*p == 'a') {
					size_t a = f.available();
					while(a--) {
						auto m = f.front();
						out.emplace_back(m.data(), m.size());
						f.pop_front();
					}
				} else if(*p == 'r') {
					for(auto m : f)
						out.emplace_back(m.data(), m.size());
				}
			}
		});
	check(ex, in, out, false);
	ex.obs(out.size() * 100 + in.size());
	if(f.available() != in.size() - out.size())
		ex.fail("available", "wrong number of messages available");
	while(!f.empty()) {
		auto m = f.front();
		out.emplace_back(m.data(), m.size());
		f.pop_front();
	}
	check(ex, in, out, true);
	// It is empty, so a maximum-size message must fit.
	f.reset_back();
	std::string s = gen((int)Cap - 1);
	if(!f.push_back(s.data(), s.size()))
		ex.fail("full", "message does not fit in an empty queue");
	auto m = f.front();
	if(std::string(m.data(), m.size()) != s)
		ex.fail("order", "wrong message afterwards");
}

class Up : public stored::ProtocolLayer {
public:
	std::vector<std::string> got;
	Up()
	{
		got.reserve(32);
	}
	void decode(void* buffer, size_t len) override
	{
		got.emplace_back((char*)buffer, len);
	}
};

template <size_t Cap, size_t Msgs>
void loopback(Explorer& ex, std::vector<char const*> const& prods, std::vector<char const*> const& conss, int pre)
{
	typedef stored::FifoLoopback1<Cap, Msgs> F;
	wmm::reset();
	int c = ex.shardChoose((int)(prods.size() * conss.size() * 2));
	bool handler = c & 1;
	c /= 2;
	char const* prod = prods[(size_t)c % prods.size()];
	char const* cons = conss[(size_t)c / prods.size()];
	ex.trace("producer %s, consumer %s, handler %d", prod, cons, handler);
	F& f = make<F>();
	Up up;
	f.setUp(&up);
	std::vector<std::string> in;
	in.reserve(32);
	int next = 0;
	int overflows = 0, retries = 0;
	if(handler)
		f.setOverflowHandler([&]() {
			overflows++;
			return ++retries < 3;
		});
	bool errBad = false;
	wmm::watch(&f, sizeof(f));
	wmm::run(
		ex, pre,
		[&]() {
			std::string part;
			part.reserve(32);
			bool lost = false;
			for(char const* p = prod; *p; p++) {
				bool last = true;
				if(*p == '+') {
					last = false;
					p++;
				}
				std::string s;
				for(int i = 0; i < *p - '0'; i++)
					s += letter(next++ % 26);
				retries = 0;
				int before = overflows;
				bool err0 = f.lastError() == ENOMEM;
				f.encode(s.data(), s.size(), last);
				if(handler) {
					if(retries == 3)
						lost = true;
					if(f.lastError())
						errBad = true;
				} else if(f.lastError() == ENOMEM) {
					lost = true;
					f.reset();
				}
				(void)before;
				(void)err0;
				part += s;
				if(last) {
					if(!lost)
						in.push_back(part);
					part.clear();
					lost = false;
				}
			}
		},
		[&]() {
			for(char const* p = cons; *p; p++) {
				if(*p == 'p')
					f.recv();
				else
					f.recvAll();
			}
		});
	if(errBad)
		ex.fail("error", "lastError() set, with an overflow handler");
	check(ex, in, up.got, false);
	ex.obs(up.got.size() * 100 + in.size());
	f.recvAll();
	check(ex, in, up.got, true);
	f.~F();
}

} // namespace

void mc::setup(bool thorough)
{
	// Assertions add loads, so limit that configuration.
#ifdef VERIF_CONFIG_RELEASE
	int pre = thorough ? 100 : 4;
#else
	int pre = thorough ? 5 : 3;
#endif
	std::string b = pre == 100 ? ", all interleavings" : mc::fmt(", all interleavings with %d preemptions", pre);
	b += ", all values a load may return";
	mc::add("fifo-1", std::string() + "capacity 1, up to 3 operations per thread" + b,
		4, [=](Explorer& ex) {
			fifo<Pair, 1>(ex, {"111", "eee", "f1e", "1e1"}, {"ppp", "kk", "cc", "vv", "rr", "x"}, 2, pre);
		});
	mc::add("fifo-2", std::string() + "capacity 2, up to 4 operations per thread" + b,
		8, [=](Explorer& ex) {
			fifo<Pair, 2>(ex, {"1111", "2e1", "i2", "22", "ff1e"}, {"pppp", "kk", "cc", "vp", "rp", "x"}, 3, pre);
		});
	mc::add("msgfifo", std::string() + "buffer of 5 bytes and 2 messages, up to 4 operations per thread" + b, 16, [=](Explorer& ex) {
			msgfifo<5, 2>(ex, {"111", "222", "+12.1", "412", "201", "+1r22", "13", "+1+1.2", "0+20", "s2s"},
				{"ppp", "aa", "rp"}, {"", "1p", "2", "2p1", "3p1", "21p"}, pre);
		});
	mc::add("loopback", std::string() + "FifoLoopback1 of 5 bytes and 2 messages, up to 4 messages, with and without overflow handler" + b, 8,
		[=](Explorer& ex) {
			loopback<5, 2>(ex, {"222", "1+21", "+112", "+2+11"}, {"ppp", "ap"}, pre);
		});
}

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
