// The scratch pad memory, against a stack of allocations.
// mc: property=P18 flavour=asan,opt
#include "common/mc.h"
#include <list>
#include <memory>
#include <new>
#include <stored>

using mc::Explorer;

// Allocations can be made to fail.
static int failAlloc = -1; // number of allocations to go before one fails
static bool didFail;

static void* doNew(size_t n)
{
	if(failAlloc >= 0 && failAlloc-- == 0) {
		didFail = true;
		throw std::bad_alloc();
	}
	void* p = malloc(n ? n : 1);
	if(!p)
		throw std::bad_alloc();
	return p;
}
void* operator new(size_t n)
{
	return doNew(n);
}
void* operator new[](size_t n)
{
	return doNew(n);
}
void operator delete(void* p) noexcept
{
	free(p);
}
void operator delete[](void* p) noexcept
{
	free(p);
}
void operator delete(void* p, size_t) noexcept
{
	free(p);
}
void operator delete[](void* p, size_t) noexcept
{
	free(p);
}

namespace {

struct Alloc {
	unsigned char* p;
	size_t size;
	unsigned char tag;
};

template <typename Pad>
struct Run {
	Explorer& ex;
	std::unique_ptr<Pad> pad;
	std::vector<Alloc> live;
	struct Snap {
		std::unique_ptr<typename Pad::Snapshot> s;
		size_t live;
		size_t size;
		bool empty;
	};
	std::vector<Snap> snaps;
	unsigned char tag = 1;
	int fault = -1;
	size_t max = 0;

	explicit Run(Explorer& e)
		: ex(e)
	{}

	~Run()
	{
		while(!snaps.empty())
			snaps.pop_back();
	}

	size_t sum() const
	{
		size_t s = 0;
		for(auto const& a : live)
			s += a.size;
		return s;
	}

	void check()
	{
		for(size_t i = 0; i < live.size(); i++) {
			Alloc const& a = live[i];
			for(size_t j = 0; j < i; j++) {
				Alloc const& b = live[j];
				MC_CHECK(
					ex, "overlap",
					!a.size || !b.size || a.p + a.size <= b.p || b.p + b.size <= a.p,
					"allocations %zu (%zu bytes) and %zu (%zu bytes) overlap", i, a.size, j,
					b.size);
			}
			for(size_t k = 0; k < a.size; k++)
				MC_CHECK(ex, "contents", a.p[k] == a.tag,
					 "byte %zu of allocation %zu changed", k, i);
		}
		size_t s = pad->size();
		MC_CHECK(ex, "size", s >= sum() && s <= sum() + 7 * live.size(),
			 "size() is %zu, while %zu is allocated", s, sum());
		MC_CHECK(ex, "empty", pad->empty() == (s == 0), "empty() but size() is %zu", s);
		max = std::max(max, s);
		MC_CHECK(ex, "max", pad->max() == max, "max() is %zu, not %zu", pad->max(), max);
		MC_CHECK(ex, "capacity", pad->capacity() >= s, "capacity %zu < size %zu", pad->capacity(), s);
		ex.obs(s);
		ex.obs(pad->capacity());
		ex.obs(pad->chunks());
	}

	template <typename T>
	void alloc(size_t count, size_t align)
	{
		size_t bytes = count * sizeof(T);
		size_t before = pad->size();
		unsigned char* p = nullptr;
		bool thrown = false;
		didFail = false;
		failAlloc = fault;
		try {
			p = (unsigned char*)pad->template alloc<T>(count, align);
		} catch(std::bad_alloc&) {
			thrown = true;
		}
		failAlloc = -1;
		ex.trace("alloc %zu bytes (align %zu)%s: %s", bytes, align, didFail ? ", out of memory" : "",
			 thrown ? "throws" : "ok");
		if(thrown) {
			MC_CHECK(ex, "refused", didFail || before + bytes + 7 > Pad::maxSize,
				 "allocation of %zu bytes refused, having %zu", bytes, before);
			MC_CHECK(ex, "refused-size", pad->size() == before, "refused, but size changed from %zu to %zu",
				 before, pad->size());
			return;
		}
		MC_CHECK(ex, "null", p, "nullptr returned");
		MC_CHECK(ex, "limit", sum() + bytes <= Pad::maxSize, "%zu bytes allocated, while at most %zu fits",
			 sum() + bytes, (size_t)Pad::maxSize);
		size_t al = std::min(align, sizeof(void*));
		MC_CHECK(ex, "alignment", !bytes || (uintptr_t)p % al == 0, "alignment of %zu required", al);
		memset(p, tag, bytes);
		live.push_back(Alloc{p, bytes, tag++});
	}
};

template <typename Pad>
void body(Explorer& ex, int depth, int faults, int init, std::vector<size_t> const& sizes)
{
	failAlloc = -1;
	ex.budget(faults);
	Run<Pad> r(ex);
	int const nSizes = (int)sizes.size();
	// alloc char: sizes; exact fill; aligned 2/4/8; zero; reserve small/large/one more than capacity; snapshot;
	// leave; rollback; detach; move; reset; shrink; stop
	enum { OpFill, OpFill1, Op8, Op4, Op2, OpZero, OpReserve0, OpReserve1, OpReserve2, OpSnapshot, OpLeave, OpRollback,
	       OpDetach, OpMove, OpReset, OpShrink, OpCount };
	bool first = true;
	size_t const initial[] = {0, 5, 64};
	r.pad.reset(new Pad(initial[init]));
	ex.trace("scratch pad, %zu bytes reserved", initial[init]);
	for(int d = 0; d < depth; d++) {
		int op = first ? ex.shardChoose(OpCount + nSizes) : ex.choose(OpCount + nSizes);
		first = false;
		Pad& pad = *r.pad;
		// The number of allocations before one fails.
		bool allocs = op <= OpReserve2 || op >= OpCount || op == OpReset || op == OpShrink || op == OpLeave || op == OpRollback;
		if(allocs && faults)
			r.fault = ex.dev(3) - 1;
		else
			r.fault = -1;
		didFail = false;
		switch(op) {
		case OpFill:
		case OpFill1: {
			size_t n = pad.capacity() - pad.size() + (op == OpFill1 ? 1 : 0);
			if(!n || n > 400)
				ex.prune();
			r.template alloc<char>(n, 1);
			break;
		}
		case Op8:
			r.template alloc<uint64_t>(1, 8);
			break;
		case Op4:
			r.template alloc<uint32_t>(3, 4);
			break;
		case Op2:
			r.template alloc<char>(5, 2);
			break;
		case OpZero:
			r.template alloc<char>(0, 1);
			break;
		case OpReserve0:
		case OpReserve1:
		case OpReserve2: {
			size_t n = op == OpReserve0 ? 1 : op == OpReserve1 ? 40 : pad.capacity() - pad.size() + 1;
			size_t s = pad.size();
			bool thrown = false;
			failAlloc = r.fault;
			try {
				pad.reserve(n);
			} catch(std::bad_alloc&) {
				thrown = true;
			}
			failAlloc = -1;
			ex.trace("reserve %zu%s", n, thrown ? ": throws" : "");
			MC_CHECK(ex, "reserve-throw", !thrown || didFail, "reserve failed");
			MC_CHECK(ex, "reserve-size", pad.size() == s, "reserve changed size() to %zu", pad.size());
			MC_CHECK(ex, "reserve-capacity", thrown || pad.capacity() - pad.size() >= n,
				 "reserved %zu, but room for %zu", n, pad.capacity() - pad.size());
			break;
		}
		case OpSnapshot:
			if(r.snaps.size() >= 4)
				ex.prune();
			ex.trace("snapshot");
			r.snaps.push_back(typename Run<Pad>::Snap{
				std::unique_ptr<typename Pad::Snapshot>(new typename Pad::Snapshot(pad.snapshot())), r.live.size(),
				pad.size(), pad.empty()});
			break;
		case OpLeave:
		case OpRollback: {
			if(r.snaps.empty())
				ex.prune();
			auto& s = r.snaps.back();
			ex.trace(op == OpLeave ? "leave snapshot" : "rollback snapshot");
			size_t size = s.size;
			r.live.resize(s.live);
			failAlloc = r.fault;
			if(op == OpLeave)
				r.snaps.pop_back();
			else
				s.s->rollback();
			failAlloc = -1;
			MC_CHECK(ex, "restore", pad.size() == size, "size() is %zu after the snapshot, was %zu", pad.size(),
				 size);
			break;
		}
		case OpDetach:
			if(r.snaps.empty())
				ex.prune();
			ex.trace("detach snapshot");
			r.snaps.back().s->reset();
			r.snaps.pop_back();
			break;
		case OpMove: {
			if(r.snaps.empty())
				ex.prune();
			ex.trace("move snapshot");
			typename Pad::Snapshot s2(std::move(*r.snaps.back().s));
			*r.snaps.back().s = std::move(s2);
			break;
		}
		case OpReset:
			if(!r.snaps.empty())
				ex.prune();
			ex.trace("reset%s", r.fault >= 0 ? ", out of memory" : "");
			r.live.clear();
			failAlloc = r.fault;
			pad.reset();
			failAlloc = -1;
			MC_CHECK(ex, "reset", pad.empty() && pad.size() == 0, "not empty after reset");
			break;
		case OpShrink:
			ex.trace("shrink");
			failAlloc = r.fault;
			pad.shrink_to_fit();
			failAlloc = -1;
			if(pad.empty()) {
				MC_CHECK(ex, "shrink", pad.capacity() == 0 && pad.chunks() == 0, "capacity %zu after shrink",
					 pad.capacity());
				// Only allocations of zero bytes may be left.
				r.live.clear();
				for(auto& s : r.snaps)
					s.live = 0;
			}
			r.max = pad.size();
			break;
		default:
			r.template alloc<char>(sizes[(size_t)(op - OpCount)], 1);
		}
		failAlloc = -1;
		r.check();
		ex.step();
		// The memory layout is determined by the sizes, but not by the addresses.
		uint64_t h = mc::mix(pad.size(), pad.capacity());
		h = mc::mix(h, pad.chunks());
		h = mc::mix(h, pad.max());
		for(auto const& a : r.live)
			h = mc::mix(h, a.size);
		for(auto const& s : r.snaps)
			h = mc::mix(h, s.live * 1000 + s.size);
		ex.state(h);
	}
	while(!r.snaps.empty()) {
		size_t size = r.snaps.back().size;
		r.live.resize(r.snaps.back().live);
		r.snaps.pop_back();
		ex.trace("leave snapshot");
		MC_CHECK(ex, "restore", r.pad->size() == size, "size() is %zu after the snapshot, was %zu", r.pad->size(), size);
		r.check();
	}
}

} // namespace

void mc::setup(bool thorough)
{
	int depth = mc::slow ? 4 : 5;
	for(int init = 0; init < 3; init++)
		add(mc::fmt("ops%d", init),
		    mc::fmt("all sequences of %d operations (allocate, reserve, snapshot, leave, rollback, detach, move, reset, "
			    "shrink) on ScratchPad<65535>, initially reserved: variant %d", depth + (thorough ? 1 : 0), init),
		    8, [=](Explorer& ex) {
			    body<stored::ScratchPad<>>(ex, depth + (ex.thorough ? 1 : 0), 0, init, {1, 3, 30, 200});
		    });
	add("limit",
	    "all sequences of operations near the maximum size of ScratchPad<255>", 8, [=](Explorer& ex) {
		    body<stored::ScratchPad<255>>(ex, depth + (ex.thorough ? 1 : 0), 0, 0, {1, 100, 127, 254, 255, 256, 300});
	    });
	add("limit64k", "all sequences of 3 operations near the maximum size of ScratchPad<65535>", 8, [=](Explorer& ex) {
		body<stored::ScratchPad<>>(ex, ex.thorough ? 4 : 3, 0, 0, {1, 30000, 35000, 65535, 65536, 70000});
	});
	add("nomemory", "all sequences of operations with every allocation failing once", 8, [=](Explorer& ex) {
		body<stored::ScratchPad<>>(ex, depth - (ex.thorough ? 0 : 1), ex.thorough ? 2 : 1, 0, {1, 30, 200});
	});
	(void)thorough;
}

MC_MAIN
