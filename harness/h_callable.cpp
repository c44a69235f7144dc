// Type-erased callables: all sequences of construct, assign, copy, move, swap and destroy, with failing copies.
// mc: property=P19 flavour=asan,opt
#include "common/mc.h"
#include <memory>
#include <new>
#include <set>
#include <stored>
#include <string>

using mc::Explorer;

static int failAlloc = -1; // allocations to go before one fails
static bool didFail;
static long allocs;

static void* doNew(size_t n)
{
	if(failAlloc >= 0 && failAlloc-- == 0) {
		didFail = true;
		throw std::bad_alloc();
	}
	void* p = malloc(n ? n : 1);
	if(!p)
		throw std::bad_alloc();
	allocs++;
	return p;
}
static void doDelete(void* p)
{
	if(p)
		allocs--;
	free(p);
}
void* operator new(size_t n)
{
	return doNew(n);
}
void operator delete(void* p) noexcept
{
	doDelete(p);
}
void operator delete(void* p, size_t) noexcept
{
	doDelete(p);
}

namespace {

struct CopyFailed {};

int failCopy = -1;
struct Tracker {
	void const* addr[256];
	size_t n = 0;
	bool error = false;

	void add(void const* p)
	{
		for(size_t i = 0; i < n; i++)
			if(addr[i] == p)
				error = true;
		addr[n++] = p;
	}
	void remove(void const* p)
	{
		for(size_t i = 0; i < n; i++)
			if(addr[i] == p) {
				addr[i] = addr[--n];
				return;
			}
		error = true;
	}
	bool has(void const* p)
	{
		for(size_t i = 0; i < n; i++)
			if(addr[i] == p)
				return true;
		return false;
	}
} live;

void maybeFail()
{
	if(failCopy >= 0 && failCopy-- == 0) {
		didFail = true;
		throw CopyFailed();
	}
}

// A function object that returns its value, and counts its calls (per object).
template <size_t Pad, bool Move>
struct F {
	int v;
	mutable int calls = 0;
	char pad[Pad];

	explicit F(int x)
		: v(x)
	{
		memset(pad, x, Pad);
		live.add(this);
	}
	F(F const& o)
		: v(o.v)
		, calls(o.calls)
	{
		if(!live.has(&o))
			live.error = true;
		maybeFail();
		memcpy(pad, o.pad, Pad);
		live.add(this);
	}
	~F()
	{
		live.remove(this);
		v = -99;
	}
	int operator()(int x) const
	{
		if(!live.has(this))
			live.error = true;
		for(char c : pad)
			if(c != (char)v)
				live.error = true;
		return v * 10000 + (++calls) * 100 + x;
	}
};

// Movable without failing.
template <size_t Pad>
struct F<Pad, true> : public F<Pad, false> {
	typedef F<Pad, false> base;
	explicit F(int x)
		: base(x)
	{}
	F(F const&) = default;
	F(F&& o) noexcept
		: base(o.v)
	{
		this->calls = o.calls;
	}
};

int freeCalls;
int freeFunction(int x)
{
	return 70000 + (++freeCalls) * 100 + x;
}

typedef stored::Callable<int(int)>::type Fn;

// Reference model of one wrapper.
struct Model {
	bool exists = false;
	int v = 0; // 0 is empty
	int calls = 0;
	bool ref = false; // refers to the shared object
	bool owned() const
	{
		return exists && v >= 1 && v <= 4;
	}
};

enum Kind { Null, SmallMove, BigMove, SmallCopy, BigCopy, Free, NullFree, Ref, KindCount };
char const* const kindName[] = {"nullptr", "small function object", "large function object", "small copy-only function object",
				"large copy-only function object", "function pointer", "null function pointer",
				"reference to a function object"};

typedef F<1, true> FSM;
typedef F<100, true> FBM;
typedef F<1, false> FSC;
typedef F<100, false> FBC;

struct Shared {
	int calls = 0;
	int operator()(int x)
	{
		return 80000 + (++calls) * 100 + x;
	}
};

int const N = 2;

void body(Explorer& ex, int depth, int faults)
{
	ex.budget(faults);
	failAlloc = failCopy = -1;
	freeCalls = 0;
	live.n = 0;
	live.error = false;
	Shared shared;
	long allocs0 = allocs;

	union Slot {
		Slot() {}
		~Slot() {}
		Fn f;
	};

	Model m[N];
	{
	struct Slots {
		Slot s[N];
		Model* m;
		~Slots()
		{
			for(int i = 0; i < N; i++)
				if(m[i].exists)
					s[i].f.~Fn();
		}
	} slots;
	slots.m = m;

	auto value = [&](Kind k, Model& r) {
		r.exists = true;
		r.ref = k == Ref;
		r.calls = 0;
		switch(k) {
		case SmallMove: r.v = 1; break;
		case BigMove: r.v = 2; break;
		case SmallCopy: r.v = 3; break;
		case BigCopy: r.v = 4; break;
		case Free: r.v = 7; break;
		case Ref: r.v = 8; break;
		default: r.v = 0;
		}
	};
	// After a failure, the wrapper that was to be assigned either keeps what it had, or is empty.
	auto failed = [&](int i, bool existed) {
		if(!existed)
			return;
		bool b = (bool)slots.s[i].f;
		if(!b)
			m[i].v = 0;
		MC_CHECK(ex, "after-failure", b == (m[i].v != 0), "wrapper %d is not empty after a failure", i);
	};

	bool first = true;
	for(int d = 0; d < depth; d++) {
		// construct/assign of a value: N*KindCount, copy: i,j; move: i,j; swap; destroy; call; default construct
		int const nVal = N * KindCount;
		int const nPair = N * N;
		int const total = nVal + 2 * nPair + 1 + N + N + N;
		int op = first ? ex.shardChoose(total) : ex.choose(total);
		first = false;
		int fa = -1, fc = -1;
		if(faults && op < nVal + 2 * nPair) {
			// Let a copy or allocation fail.
			int f = ex.dev(4);
			if(f == 1 || f == 2)
				fc = f - 1;
			else if(f == 3)
				fa = 0;
		}
		didFail = false;
		bool thrown = false;
#define RUN(...) \
	do { \
		failAlloc = fa; \
		failCopy = fc; \
		try { \
			__VA_ARGS__; \
		} catch(std::bad_alloc&) { \
			thrown = true; \
		} catch(CopyFailed&) { \
			thrown = true; \
		} \
		failAlloc = failCopy = -1; \
	} while(0)

		if(op < nVal) {
			int i = op % N;
			Kind k = (Kind)(op / N);
			bool existed = m[i].exists;
			Fn& f = slots.s[i].f;
			ex.trace("%s %d from %s%s%s", existed ? "assign" : "construct", i, kindName[k], fc >= 0 ? ", copy fails" : "",
				 fa >= 0 ? ", allocation fails" : "");
			switch(k) {
#define VAL(x) \
	if(existed) \
		RUN(f = x); \
	else \
		RUN(new(&f) Fn(x)); \
	break;
			case Null: VAL(nullptr)
			case SmallMove: VAL(FSM(1))
			case BigMove: VAL(FBM(2))
			case SmallCopy: VAL(FSC(3))
			case BigCopy: VAL(FBC(4))
			case Free: VAL(&freeFunction)
			case NullFree: VAL((int (*)(int)) nullptr)
			case Ref: VAL(shared)
			default:;
			}
			MC_CHECK(ex, "throw", thrown == didFail, "%s", thrown ? "thrown without a failure" : "failure not reported");
			if(thrown)
				failed(i, existed);
			else
				value(k, m[i]);
		} else if(op < nVal + 2 * nPair) {
			bool mv = op >= nVal + nPair;
			int ij = (op - nVal) % nPair;
			int i = ij / N, j = ij % N;
			if(!m[j].exists)
				ex.prune();
			if(i == j && !m[i].exists)
				ex.prune();
			bool existed = m[i].exists;
			Fn& f = slots.s[i].f;
			Fn& g = slots.s[j].f;
			ex.trace("%s %s %d to %d%s%s", mv ? "move" : "copy", existed ? "assign" : "construct", j, i,
				 fc >= 0 ? ", copy fails" : "", fa >= 0 ? ", allocation fails" : "");
			if(mv) {
				if(existed)
					RUN(f = std::move(g));
				else
					RUN(new(&f) Fn(std::move(g)));
			} else {
				if(existed)
					RUN(f = g);
				else
					RUN(new(&f) Fn(g));
			}
			MC_CHECK(ex, "throw", thrown == didFail, "%s", thrown ? "thrown without a failure" : "failure not reported");
			if(thrown)
				failed(i, existed);
			else if(i != j) {
				m[i] = m[j];
				if(mv) {
					m[j].v = 0;
					m[j].calls = 0;
				}
			}
			// A self-move leaves either the value, or an empty wrapper.
			if(!thrown && mv && i == j && !f)
				m[i].v = 0;
		} else if(op == nVal + 2 * nPair) {
			if(!m[0].exists || !m[1].exists)
				ex.prune();
			ex.trace("swap");
			std::swap(slots.s[0].f, slots.s[1].f);
			std::swap(m[0], m[1]);
		} else if(op <= nVal + 2 * nPair + N) {
			int i = op - nVal - 2 * nPair - 1;
			if(!m[i].exists)
				ex.prune();
			ex.trace("destroy %d", i);
			m[i].exists = false;
			slots.s[i].f.~Fn();
			memset((void*)&slots.s[i].f, 0x5a, sizeof(Fn));
		} else if(op <= nVal + 2 * nPair + 2 * N) {
			int i = op - nVal - 2 * nPair - 1 - N;
			if(m[i].exists)
				ex.prune();
			ex.trace("default construct %d", i);
			new(&slots.s[i].f) Fn();
			value(Null, m[i]);
		} else {
			int i = op - nVal - 2 * nPair - 1 - 2 * N;
			if(!m[i].exists || !m[i].v)
				ex.prune();
			ex.trace("call %d", i);
			int want = m[i].v == 7	 ? 70000 + (freeCalls + 1) * 100 + 5
				   : m[i].v == 8 ? 80000 + (shared.calls + 1) * 100 + 5
						 : m[i].v * 10000 + ++m[i].calls * 100 + 5;
			int got = slots.s[i].f(5);
			MC_CHECK(ex, "call", got == want, "call of %d gives %d instead of %d", i, got, want);
		}

		// Check everything.
		size_t owned = 0;
		for(int i = 0; i < N; i++) {
			if(!m[i].exists)
				continue;
			MC_CHECK(ex, "bool", (bool)slots.s[i].f == (m[i].v != 0), "wrapper %d is %s", i,
				 m[i].v ? "empty" : "not empty");
			if(m[i].owned())
				owned++;
			if(!m[i].v) {
				bool bad = false;
				try {
					slots.s[i].f(1);
				} catch(std::bad_function_call&) {
					bad = true;
				}
				MC_CHECK(ex, "empty-call", bad, "calling an empty wrapper");
			}
			ex.obs((uint64_t)m[i].v * 100 + (uint64_t)m[i].calls);
		}
		MC_CHECK(ex, "lifetime", !live.error, "a function object is used or destroyed while it does not live");
		MC_CHECK(ex, "live", live.n == owned, "%zu function objects live, %zu expected", live.n, owned);
		ex.step();
		uint64_t h = 1;
		for(int i = 0; i < N; i++)
			h = mc::mix(h, m[i].exists ? (uint64_t)m[i].v * 100 + (uint64_t)m[i].calls : 99999);
		ex.state(h);
	}
	// Call all that are left.
	for(int i = 0; i < N; i++)
		if(m[i].exists && m[i].v) {
			int got = slots.s[i].f(9);
			MC_CHECK(ex, "call", got / 10000 == m[i].v && got % 100 == 9, "final call of %d gives %d", i, got);
		}
	}
	MC_CHECK(ex, "live-end", live.n == 0 && !live.error, "%zu function objects not destroyed", live.n);
	(void)allocs0;
}

// Leaks are judged per execution, without the explorer's own bookkeeping.
void leakBody(Explorer& ex, int depth, int faults)
{
	ex.budget(faults);
	failAlloc = failCopy = -1;
	live.n = 0;
	live.error = false;
	std::vector<int> script;
	std::vector<int> fault;
	for(int d = 0; d < depth; d++) {
		script.push_back(d ? ex.choose(16) : ex.shardChoose(16));
		fault.push_back(ex.dev(4));
	}
	char const* const names[] = {"small", "large", "small copy-only", "large copy-only"};
	for(int d = 0; d < depth; d++)
		ex.trace("%s%s", script[(size_t)d] < 8 ? mc::fmt("assign %s to %d", names[script[(size_t)d] % 4], script[(size_t)d] / 4).c_str()
			: script[(size_t)d] < 10 ? "copy" : script[(size_t)d] < 12 ? "move" : script[(size_t)d] < 14 ? "copy construct" : "clear",
			fault[(size_t)d] == 0 ? "" : fault[(size_t)d] < 3 ? ", copy fails" : ", allocation fails");
	long before = allocs;
	int thrown = 0;
	{
		Fn f[2];
		for(int d = 0; d < depth; d++) {
			int op = script[(size_t)d];
			Fn& a = f[op < 8 ? op / 4 : op & 1];
			Fn& b = f[op < 8 ? 1 - op / 4 : 1 - (op & 1)];
			failCopy = fault[(size_t)d] == 1 ? 0 : fault[(size_t)d] == 2 ? 1 : -1;
			failAlloc = fault[(size_t)d] == 3 ? 0 : -1;
			try {
				switch(op) {
				case 0: case 4: a = FSM(1); break;
				case 1: case 5: a = FBM(2); break;
				case 2: case 6: a = FSC(3); break;
				case 3: case 7: a = FBC(4); break;
				case 8: case 9: a = b; break;
				case 10: case 11: a = std::move(b); break;
				case 12: case 13: { Fn g(b); b = g; break; }
				default: a = nullptr;
				}
			} catch(std::bad_alloc&) {
				thrown++;
			} catch(CopyFailed&) {
				thrown++;
			}
			failAlloc = failCopy = -1;
		}
	}
	long after = allocs;
	MC_CHECK(ex, "leak", after == before, "%ld allocations leaked", after - before);
	MC_CHECK(ex, "live-end", live.n == 0 && !live.error, "%zu function objects not destroyed", live.n);
	ex.obs((uint64_t)thrown);
	for(int s : script)
		ex.obs((uint64_t)s);
	ex.step((uint64_t)depth);
}

// Arguments and results are passed as by a plain call.
void argsBody(Explorer& ex)
{
	int big = ex.shardChoose(2);
	int how = ex.choose(5);
	ex.trace("arguments, %s function object, case %d", big ? "large" : "small", how);
	char pad[100] = {};
	pad[99] = 7;
#define MAKE(sig_, ...) \
	stored::Callable<sig_>::type f; \
	if(big) \
		f = [pad] __VA_ARGS__; \
	else \
		f = [] __VA_ARGS__;
	stored::Callable<int()>::type chk;
	chk = [pad]() { return (int)pad[99]; };
	MC_CHECK(ex, "args", chk() == 7, "capture");
	switch(how) {
	case 0: {
		MAKE(int(std::string, int), (std::string s, int x) { return (int)s.size() + x; })
		std::string s(50, 'x');
		MC_CHECK(ex, "args", f(s, 3) == 53 && s.size() == 50, "by value");
		MC_CHECK(ex, "args", f(std::string(20, 'a'), -1) == 19, "by value, temporary");
		break;
	}
	case 1: {
		MAKE(void(int&), (int& x) { x++; })
		int x = 3;
		f(x);
		auto g = f;
		g(x);
		MC_CHECK(ex, "args", x == 5, "by reference");
		break;
	}
	case 2: {
		MAKE(std::unique_ptr<int>(std::unique_ptr<int> &&), (std::unique_ptr<int> && p) {
			++*p;
			return std::move(p);
		})
		std::unique_ptr<int> p(new int(4));
		auto q = f(std::move(p));
		MC_CHECK(ex, "args", q && *q == 5 && !p, "by rvalue reference");
		break;
	}
	case 3: {
		MAKE(int const&(int const&), (int const& x)->int const& { return x; })
		int x = 3;
		MC_CHECK(ex, "args", &f(x) == &x, "by const reference");
		break;
	}
	default: {
		static int n;
		n = 0;
		MAKE(void(), () { n++; })
		auto g = f;
		auto h = std::move(f);
		g();
		h();
		MC_CHECK(ex, "args", n == 2 && !f, "without arguments");
	}
	}
	ex.step();
}

} // namespace

void mc::setup(bool)
{
	int depth = mc::slow ? 3 : 4;
	add("ops", mc::fmt("all sequences of %d (thorough: 5) operations on %d wrappers: construct, assign, copy, move (also to itself), swap, "
		"destroy and call, with 8 kinds of callables", depth, N), 16,
	    [=](Explorer& ex) { body(ex, ex.thorough ? depth + 1 : depth, 0); });
	add("failures", "all sequences of operations, in which up to two copies or allocations fail", 16,
	    [=](Explorer& ex) { body(ex, ex.thorough ? 4 : 3, ex.thorough ? 3 : 2); });
	add("leaks", "all sequences of 3 (thorough: 4) assignments, copies, moves, of which up to two fail: all memory is freed", 16,
	    [=](Explorer& ex) { leakBody(ex, ex.thorough ? 4 : 3, 2); });
	add("args", "passing of arguments and results by value, (const) reference and rvalue reference", 1, argsBody);
}

MC_MAIN
