// Weak memory model explorer for two threads.
//
// The translation unit that includes this header is compiled with -fsanitize=thread, but not linked
// to TSan: the hooks below are its runtime.  The threads are fibers under a controlled scheduler. Every
// access to an atomic within the watched objects is a scheduling point, and is executed against the
// C++ memory model: every atomic location has its modification order, a load may return every store
// that coherence and happens-before allow, a store may be placed everywhere in the modification order
// where these allow it.  All other accesses to the watched objects are checked for data races, by vector
// clocks.
#ifndef WMM_H
#define WMM_H

#include "common/mc.h"
#include <atomic>
#include <csetjmp>
#include <cstring>
#include <ucontext.h>
#include <vector>

#define NOTSAN __attribute__((no_sanitize("thread"), noinline))

extern "C" {
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace wmm {

typedef std::array<uint32_t, 2> Clock;
// Per location: id of the message
typedef std::array<uint16_t, 8> View;

struct Msg {
	uint64_t val;
	uint16_t id;
	bool attached; // an RMW follows
	Clock clk;     // what is released by this store
	View view;
};

struct Loc {
	uintptr_t key;
	size_t size;
	std::vector<Msg> order;
	int pos(uint16_t id) const
	{
		for(size_t i = 0; i < order.size(); i++)
			if(order[i].id == id)
				return (int)i;
		abort();
	}
};

struct Shadow {
	std::array<uint32_t, 2> w, r;
};

struct Thread {
	View cur, acq, rel;
	Clock clk, acqClk, relClk;
	uint64_t hash;
	uint16_t stores;
	bool done;
	bool started;
	jmp_buf jb;
	ucontext_t uc;
	std::function<void()> body;
};

struct Range {
	char const* p;
	size_t n;
	std::vector<Shadow> s;
};

struct State {
	mc::Explorer* ex = nullptr;
	std::array<Thread, 2> t;
	std::vector<Loc> loc;
	std::vector<Range> range;
	View sc;
	Clock scClk;
	int cur = -1; // running fiber
	bool in = false;
	bool prune = false;
	std::string key, msg;
	jmp_buf main;
	ucontext_t ucmain;
	uint64_t ops = 0;
	int maxOps = 400;
	bool stale = true;
};

extern State g;
State g;
static char g_stack[2][256 * 1024] __attribute__((aligned(64)));

// Leave the fiber for good.
[[noreturn]] NOTSAN void abandon()
{
	g.cur = -1;
	_longjmp(g.main, 1);
}

[[noreturn]] NOTSAN void violation(char const* key, std::string const& msg)
{
	g.in = true;
	g.key = key;
	g.msg = msg;
	abandon();
}

NOTSAN int choose(int n)
{
	return g.ex->choose(n);
}

NOTSAN Loc& location(void const volatile* p, size_t size, int& ix)
{
	uintptr_t key = 0;
	for(size_t i = 0; i < g.range.size(); i++) {
		uintptr_t d = (uintptr_t)p - (uintptr_t)g.range[i].p;
		if(d < g.range[i].n)
			key = (i + 1) * 0x100000 + d;
	}
	for(size_t i = 0; i < g.loc.size(); i++)
		if(g.loc[i].key == key) {
			ix = (int)i;
			if(g.loc[i].size != size)
				violation("mixed-size", "mixed-size atomic accesses");
			return g.loc[i];
		}
	if(g.loc.size() >= std::tuple_size<View>::value)
		abort();
	Loc l{key, size, {}};
	uint64_t v = 0;
	__real_memcpy(&v, (void const*)p, size);
	l.order.push_back(Msg{v, 0, false, Clock{}, View{}});
	g.loc.push_back(l);
	ix = (int)g.loc.size() - 1;
	return g.loc.back();
}

NOTSAN void join(View& v, View const& o)
{
	for(size_t i = 0; i < g.loc.size(); i++)
		if(g.loc[i].pos(o[i]) > g.loc[i].pos(v[i]))
			v[i] = o[i];
}

NOTSAN void join(Clock& v, Clock const& o)
{
	for(int i = 0; i < 2; i++)
		v[i] = std::max(v[i], o[i]);
}

NOTSAN uint64_t stateHash()
{
	uint64_t h = mc::mix(mc::mix(g.t[0].hash, g.t[1].hash), (uint64_t)g.cur * 4 + g.t[0].done * 2 + g.t[1].done);
	uint64_t s = 0;
	for(auto const& l : g.loc) {
		// Locations are known to the threads that accessed them; only the order matters.
		if(l.order.size() < 2)
			continue;
		uint64_t o = l.key;
		for(auto const& m : l.order)
			o = mc::mix(o, m.id);
		s += o;
	}
	return mc::mix(h, s);
}

NOTSAN void switchTo(int t)
{
	int from = g.cur;
	g.cur = t;
	if(from >= 0 && _setjmp(g.t[from].jb))
		return;
	if(g.t[t].started)
		_longjmp(g.t[t].jb, 1);
	g.t[t].started = true;
	setcontext(&g.t[t].uc);
	abort();
}

NOTSAN void trampoline()
{
	int me = g.cur;
	g.in = false;
	g.t[me].body();
	g.in = true;
	g.t[me].done = true;
	g.t[me].hash = mc::mix(g.t[me].hash, 0xdeadull);
	if(!g.t[!me].done)
		switchTo(!me);
	abandon();
}

// Before every atomic access.
NOTSAN void schedule()
{
	if(++g.ops > (uint64_t)g.maxOps)
		violation("livelock", "too many steps");
	int me = g.cur;
	if(g.ex->seen(stateHash(), 0)) {
		g.prune = true;
		abandon();
	}
	if(!g.t[!me].done && g.ex->budget() > 0 && g.ex->dev(2)) {
		switchTo(!me);
		// We're back, see where we are.
	}
	g.in = true;
}

static inline bool acquires(int mo)
{
	return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL
	       || mo == __ATOMIC_SEQ_CST;
}
static inline bool releases(int mo)
{
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

NOTSAN void scBefore(Thread& t, int mo)
{
	if(mo == __ATOMIC_SEQ_CST) {
		join(t.cur, g.sc);
		join(t.clk, g.scClk);
	}
}
NOTSAN void scAfter(Thread& t, int mo)
{
	if(mo == __ATOMIC_SEQ_CST) {
		join(g.sc, t.cur);
		join(g.scClk, t.clk);
		// The order of these operations matters to others.
		g.t[0].hash = mc::mix(g.t[0].hash, g.t[1].hash);
		g.t[1].hash = mc::mix(g.t[1].hash, g.t[0].hash);
	}
}

NOTSAN uint64_t readMsg(Thread& t, Loc& l, int ix, int p, int mo)
{
	Msg const& m = l.order[(size_t)p];
	t.cur[(size_t)ix] = m.id;
	if(acquires(mo)) {
		join(t.cur, m.view);
		join(t.clk, m.clk);
	} else {
		join(t.acq, m.view);
		join(t.acqClk, m.clk);
	}
	t.hash = mc::mix(mc::mix(t.hash, l.key), m.id * 16u + (unsigned)mo);
	return m.val;
}

NOTSAN uint64_t load(void const volatile* p, size_t size, int mo)
{
	g.in = true;
	schedule();
	int me = g.cur;
	Thread& t = g.t[(size_t)me];
	int ix;
	Loc& l = location(p, size, ix);
	scBefore(t, mo);
	int last = (int)l.order.size() - 1;
	int lo = g.stale ? l.pos(t.cur[(size_t)ix]) : last;
	int c = lo == last ? 0 : choose(last - lo + 1);
	uint64_t v = readMsg(t, l, ix, last - c, mo);
	scAfter(t, mo);
	t.clk[(size_t)me]++;
	g.ex->step();
	if(g.ex->tracing)
		g.ex->trace("%c load +%lx -> %llu%s", 'A' + me, (unsigned long)(l.key & 0xfffff),
			(unsigned long long)v, c ? " (stale)" : "");
	g.in = false;
	return v;
}

NOTSAN void insert(Thread& t, int me, Loc& l, int ix, int at, uint64_t v, int mo, void* p, bool rmw)
{
	Msg m;
	m.val = v;
	m.id = (uint16_t)(1 + me + 2 * t.stores++);
	m.attached = false;
	Msg const* prev = &l.order[(size_t)at - 1];
	View view = t.rel;
	Clock clk = t.relClk;
	if(releases(mo)) {
		view = t.cur;
		clk = t.clk;
	}
	if(rmw) {
		// Release sequence
		join(view, prev->view);
		join(clk, prev->clk);
	}
	m.view = view;
	m.clk = clk;
	if(rmw)
		l.order[(size_t)at - 1].attached = true;
	l.order.insert(l.order.begin() + at, m);
	if(releases(mo))
		l.order[(size_t)at].view[(size_t)ix] = m.id;
	t.cur[(size_t)ix] = m.id;
	t.hash = mc::mix(mc::mix(t.hash, l.key), m.id * 16u + (unsigned)mo + 8);
	__real_memcpy(p, &l.order.back().val, l.size);
}

NOTSAN void store(void* p, size_t size, uint64_t v, int mo)
{
	g.in = true;
	schedule();
	int me = g.cur;
	Thread& t = g.t[(size_t)me];
	int ix;
	Loc& l = location(p, size, ix);
	scBefore(t, mo);
	int lo = l.pos(t.cur[(size_t)ix]) + 1;
	int end = (int)l.order.size();
	std::vector<int> at;
	at.push_back(end);
	if(g.stale && mo != __ATOMIC_SEQ_CST)
		for(int i = end - 1; i >= lo; i--)
			if(!l.order[(size_t)i - 1].attached)
				at.push_back(i);
	int c = at.size() > 1 ? choose((int)at.size()) : 0;
	insert(t, me, l, ix, at[(size_t)c], v, mo, p, false);
	scAfter(t, mo);
	t.clk[(size_t)me]++;
	g.ex->step();
	if(g.ex->tracing)
		g.ex->trace("%c store +%lx = %llu%s", 'A' + me, (unsigned long)(l.key & 0xfffff),
			(unsigned long long)v, c ? " (overwritten already)" : "");
	g.in = false;
}

// Returns the old value. f gives the new value, and false when it is not to be stored.
template <typename F>
NOTSAN uint64_t rmw(void* p, size_t size, int mo, F&& f)
{
	g.in = true;
	schedule();
	int me = g.cur;
	Thread& t = g.t[(size_t)me];
	int ix;
	Loc& l = location(p, size, ix);
	scBefore(t, mo);
	uint64_t old = readMsg(t, l, ix, (int)l.order.size() - 1, mo);
	uint64_t n = old;
	if(f(n)) {
		if(size < 8)
			n &= (1ull << (size * 8)) - 1;
		insert(t, me, l, ix, (int)l.order.size(), n, mo, p, true);
	}
	scAfter(t, mo);
	t.clk[(size_t)me]++;
	g.ex->step();
	if(g.ex->tracing)
		g.ex->trace("%c rmw +%lx %llu -> %llu", 'A' + me, (unsigned long)(l.key & 0xfffff),
			(unsigned long long)old, (unsigned long long)n);
	g.in = false;
	return old;
}

NOTSAN void fence(int mo)
{
	Thread& t = g.t[(size_t)g.cur];
	g.in = true;
	if(acquires(mo)) {
		join(t.cur, t.acq);
		join(t.clk, t.acqClk);
	}
	scBefore(t, mo);
	if(releases(mo)) {
		t.rel = t.cur;
		t.relClk = t.clk;
		t.clk[(size_t)g.cur]++;
	}
	scAfter(t, mo);
	t.hash = mc::mix(t.hash, 0xfe00u + (unsigned)mo);
	g.in = false;
}

NOTSAN bool watched(void const volatile* p)
{
	if(g.cur < 0 || g.in)
		return false;
	bool res = false;
	g.in = true;
	for(size_t i = 0; i < g.range.size(); i++)
		if((uintptr_t)p - (uintptr_t)g.range[i].p < g.range[i].n)
			res = true;
	g.in = false;
	return res;
}

NOTSAN void plain(void const* p, size_t n, bool write)
{
	if(g.cur < 0 || g.in)
		return;
	g.in = true;
	for(size_t ri = 0; ri < g.range.size(); ri++) {
		Range& r = g.range[ri];
		uintptr_t d = (uintptr_t)p - (uintptr_t)r.p;
		if(d >= r.n)
			continue;
		size_t me = (size_t)g.cur;
		size_t u = !me;
		Thread& t = g.t[me];
		for(size_t i = d; i < d + n && i < r.n; i++) {
			Shadow& s = r.s[i];
			if(s.w[u] > t.clk[u] || (write && s.r[u] > t.clk[u]))
				violation(
					"race",
					mc::fmt("data race: %s by thread %c at offset %zu of object %d, while the other "
						"thread %s it",
						write ? "write" : "read", 'A' + (int)me, i, (int)ri,
						s.w[u] > t.clk[u] ? "wrote" : "reads"));
			(write ? s.w : s.r)[me] = t.clk[me];
		}
	}
	g.in = false;
}

NOTSAN void watch(void const* p, size_t n)
{
	g.range.push_back(Range{(char const*)p, n, std::vector<Shadow>(n)});
}

// Run both threads, with the given number of preemptions.
NOTSAN void run(mc::Explorer& ex, int preemptions, std::function<void()> a, std::function<void()> b)
{
	g.in = true;
	g.ex = &ex;
	g.loc.clear();
	g.loc.reserve(std::tuple_size<View>::value);
	g.prune = false;
	g.key.clear();
	g.ops = 0;
	g.sc = View{};
	g.scClk = Clock{};
	ex.budget(preemptions);
	for(int i = 0; i < 2; i++) {
		Thread& t = g.t[(size_t)i];
		t.cur = t.acq = t.rel = View{};
		t.clk = t.acqClk = t.relClk = Clock{};
		t.clk[(size_t)i] = 1;
		t.hash = 0x1234 + (uint64_t)i;
		t.stores = 0;
		t.done = t.started = false;
		t.body = i ? b : a;
		getcontext(&t.uc);
		t.uc.uc_stack.ss_sp = g_stack[i];
		t.uc.uc_stack.ss_size = sizeof(g_stack[i]);
		t.uc.uc_link = nullptr;
		makecontext(&t.uc, (void (*)())trampoline, 0);
	}
	// Which one goes first is free.
	int first = ex.choose(2);
	if(_setjmp(g.main) == 0) {
		g.cur = -1;
		switchTo(first);
	}
	g.cur = -1;
	g.range.clear();
	g.in = false;
	if(!g.key.empty())
		ex.fail(g.key.c_str(), g.msg);
	if(g.prune)
		ex.prune();
}

// Call before setting up the objects.
NOTSAN void reset()
{
	g.cur = -1;
	g.in = false;
	g.range.clear();
}

} // namespace wmm

extern "C" {
NOTSAN void __tsan_init() {}
NOTSAN void __tsan_func_entry(void*) {}
NOTSAN void __tsan_func_exit(void*) {}
NOTSAN void __tsan_vptr_update(void* p, void*)
{
	wmm::plain(p, sizeof(void*), true);
}
NOTSAN void __tsan_vptr_read(void* p)
{
	wmm::plain(p, sizeof(void*), false);
}
#define RW(n)                                               \
	NOTSAN void __tsan_read##n(void* p)                 \
	{                                                   \
		wmm::plain(p, n, false);                    \
	}                                                   \
	NOTSAN void __tsan_write##n(void* p)                \
	{                                                   \
		wmm::plain(p, n, true);                     \
	}                                                   \
	NOTSAN void __tsan_unaligned_read##n(void* p)       \
	{                                                   \
		wmm::plain(p, n, false);                    \
	}                                                   \
	NOTSAN void __tsan_unaligned_write##n(void* p)      \
	{                                                   \
		wmm::plain(p, n, true);                     \
	}                                                   \
	NOTSAN void __tsan_volatile_read##n(void* p)        \
	{                                                   \
		wmm::plain(p, n, false);                    \
	}                                                   \
	NOTSAN void __tsan_volatile_write##n(void* p)       \
	{                                                   \
		wmm::plain(p, n, true);                     \
	}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
NOTSAN void __tsan_read_range(void* p, long n)
{
	wmm::plain(p, (size_t)n, false);
}
NOTSAN void __tsan_write_range(void* p, long n)
{
	wmm::plain(p, (size_t)n, true);
}

#define AT(b, T)                                                                              \
	NOTSAN T __tsan_atomic##b##_load(void const volatile* p, int mo)                      \
	{                                                                                     \
		if(wmm::watched(p))                                                           \
			return (T)wmm::load(p, sizeof(T), mo);                                \
		return __atomic_load_n((T const volatile*)p, __ATOMIC_SEQ_CST);               \
	}                                                                                     \
	NOTSAN void __tsan_atomic##b##_store(void volatile* p, T v, int mo)                   \
	{                                                                                     \
		if(wmm::watched(p))                                                           \
			wmm::store((void*)p, sizeof(T), v, mo);                               \
		else                                                                          \
			__atomic_store_n((T volatile*)p, v, __ATOMIC_SEQ_CST);                \
	}                                                                                     \
	NOTSAN T __tsan_atomic##b##_exchange(void volatile* p, T v, int mo)                   \
	{                                                                                     \
		if(wmm::watched(p))                                                           \
			return (T)wmm::rmw((void*)p, sizeof(T), mo, [v](uint64_t& x) {        \
				x = v;                                                        \
				return true;                                                  \
			});                                                                   \
		return __atomic_exchange_n((T volatile*)p, v, __ATOMIC_SEQ_CST);              \
	}                                                                                     \
	AT1(b, T, add, x + v)                                                                 \
	AT1(b, T, sub, x - v)                                                                 \
	AT1(b, T, and, x& v)                                                                  \
	AT1(b, T, or, x | v)                                                                  \
	AT1(b, T, xor, x ^ v)                                                                 \
	NOTSAN bool __tsan_atomic##b##_compare_exchange_strong(                               \
		void volatile* p, void* e, T v, int mo, int)                                  \
	{                                                                                     \
		if(wmm::watched(p)) {                                                         \
			T exp;                                                                \
			__real_memcpy(&exp, e, sizeof(T));                                    \
			T old = (T)wmm::rmw((void*)p, sizeof(T), mo, [v, exp](uint64_t& x) {  \
				if((T)x != exp)                                               \
					return false;                                         \
				x = v;                                                        \
				return true;                                                  \
			});                                                                   \
			if(old == exp)                                                        \
				return true;                                                  \
			__real_memcpy(e, &old, sizeof(T));                                    \
			return false;                                                         \
		}                                                                             \
		return __atomic_compare_exchange_n(                                           \
			(T volatile*)p, (T*)e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
	}                                                                                     \
	NOTSAN bool __tsan_atomic##b##_compare_exchange_weak(                                 \
		void volatile* p, void* e, T v, int mo, int fmo)                              \
	{                                                                                     \
		return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, fmo);          \
	}
#define AT1(b, T, op, expr)                                                            \
	NOTSAN T __tsan_atomic##b##_fetch_##op(void volatile* p, T v, int mo)          \
	{                                                                              \
		if(wmm::watched(p))                                                    \
			return (T)wmm::rmw((void*)p, sizeof(T), mo, [v](uint64_t& x) { \
				x = (uint64_t)(expr);                                  \
				return true;                                           \
			});                                                            \
		return __atomic_fetch_##op((T volatile*)p, v, __ATOMIC_SEQ_CST);       \
	}
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)

NOTSAN void __tsan_atomic_thread_fence(int mo)
{
	if(wmm::g.cur >= 0 && !wmm::g.in)
		wmm::fence(mo);
}
NOTSAN void __tsan_atomic_signal_fence(int) {}

NOTSAN void* __wrap_memcpy(void* d, void const* s, size_t n)
{
	wmm::plain(s, n, false);
	wmm::plain(d, n, true);
	return __real_memcpy(d, s, n);
}
NOTSAN void* __wrap_memmove(void* d, void const* s, size_t n)
{
	wmm::plain(s, n, false);
	wmm::plain(d, n, true);
	return __real_memmove(d, s, n);
}
NOTSAN void* __wrap_memset(void* d, int c, size_t n)
{
	wmm::plain(d, n, true);
	return __real_memset(d, c, n);
}
}

#endif // WMM_H
