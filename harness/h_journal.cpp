// mc: property=P07 flavour=asan,opt stores=SyncStore
//
// The real StoreJournal: all orders of changes, bumps, aging, cleaning and applying updates, against a list of when
// every object was changed.
#include "SyncStore.h"

#include <libstored/synchronizer.h>

#include "common/mc.h"

#include <map>
#include <memory>

using mc::Explorer;

namespace {

typedef stored::StoreJournal::Seq Seq;
typedef stored::StoreJournal::Key Key;

struct Journal : stored::StoreJournal {
	using stored::StoreJournal::StoreJournal;
	using stored::StoreJournal::bumpSeq;
	using stored::StoreJournal::keySize;
};

struct Obj {
	Key key;
	size_t len;
};

Seq const Window = 0x10000;
Seq const Precise = Window / 2;	     // since later than this ago is always exact
Seq const Moved = Window / 4 * 3; // objects older than this may be reported as if they are more recent

char const* const hash = "0123456789012345678901234567890123456789";

struct Sys {
	Explorer& ex;
	std::vector<Obj> objs;
	std::vector<char> buf, copy;
	Journal j;
	Journal other;
	std::vector<Seq> last; // 0: never
	std::vector<bool> cleaned;
	Seq copied = 1; // copy is up to date with all before
	int n = 0;

	~Sys()
	{
		unpoison();
	}
	Sys(Explorer& e, std::vector<Obj> const& o, size_t size)
		: ex(e)
		, objs(o)
		, buf(size)
		, copy(size)
		, j(hash, buf.data(), size)
		, other(hash, copy.data(), size)
		, last(o.size())
		, cleaned(o.size())
	{
		MC_CHECK(ex, "keysize", ((uint64_t)1 << (8 * j.keySize())) > size, "%zu for %zu", j.keySize(), size);
	}
	// The journal poisons the memory of the store.
	void unpoison()
	{
		STORED_MAKE_MEM_DEFINED(buf.data(), buf.size());
		STORED_MAKE_MEM_DEFINED(copy.data(), copy.size());
	}
	void change(int i)
	{
		unpoison();
		Obj& o = objs[(size_t)i];
		n++;
		for(size_t k = 0; k < o.len; k++)
			buf[o.key + k] = (char)(n + (int)k * 3);
		j.changed(o.key, o.len);
		last[(size_t)i] = j.seq();
		cleaned[(size_t)i] = false;
		ex.trace("change %d at %llu", i, (unsigned long long)j.seq());
	}
	// Progress of time
	void age(Seq by)
	{
		ex.trace("age %llu", (unsigned long long)by);
		for(Seq i = 0; i < by; i++)
			j.bumpSeq(true);
	}
	void bump()
	{
		Seq s = j.seq();
		Seq r = j.bumpSeq();
		MC_CHECK(ex, "bump", r == j.seq() && (r == s || r == s + 1), "%llu", (unsigned long long)r);
		for(auto l : last)
			MC_CHECK(ex, "bump", l != s || r > s, "%llu", (unsigned long long)r);
		ex.trace("bump");
	}
	void clean(Seq oldest)
	{
		ex.trace("clean %llu", (unsigned long long)oldest);
		j.clean(oldest);
		Seq th = oldest ? oldest : j.seq() > Precise ? j.seq() - Precise : 0;
		for(size_t i = 0; i < objs.size(); i++)
			if(last[i] < th)
				cleaned[i] = true;
	}
	// 0: no, 1: yes, 2: either
	int expect(size_t i, Seq since)
	{
		Seq now = j.seq();
		if(!last[i])
			return 0;
		if(cleaned[i])
			// May be kept, when it was moved.
			return last[i] < since && !(since + Precise <= now) ? 0 : 2;
		if(last[i] >= since)
			return 1;
		if(since + Precise <= now && last[i] + Moved < now)
			return 2;
		return 0;
	}
	void check(Seq since)
	{
		std::vector<bool> want(objs.size()), may(objs.size());
		bool any = false, mayAny = false;
		for(size_t i = 0; i < objs.size(); i++) {
			int e = expect(i, since);
			any |= e == 1;
			mayAny |= e != 0;
			bool c = j.hasChanged(objs[i].key, since);
			if(e != 2)
				MC_CHECK(ex, c ? "changed-too-many" : "changed-missed", c == (e == 1),
					 "object %zu changed at %llu, hasChanged since %llu at %llu: %d", i,
					 (unsigned long long)last[i], (unsigned long long)since, (unsigned long long)j.seq(), (int)c);
			want[i] = c;
		}
		bool c = j.hasChanged(since);
		MC_CHECK(ex, "any", c ? mayAny : !any, "hasChanged since %llu at %llu: %d", (unsigned long long)since,
			 (unsigned long long)j.seq(), (int)c);
		std::vector<int> it(objs.size());
		Key prev = 0;
		bool first = true;
		j.iterateChanged(since, [&](Key k) {
			if(!first && k <= prev)
				ex.note("order", "keys out of order");
			first = false;
			prev = k;
			for(size_t i = 0; i < objs.size(); i++)
				if(objs[i].key == k) {
					it[i]++;
					return;
				}
			ex.note("unknown", mc::fmt("key %u", (unsigned)k));
		});
		for(size_t i = 0; i < objs.size(); i++)
			MC_CHECK(ex, "iterate", it[i] == (want[i] ? 1 : 0),
				 "object %zu changed at %llu, iterated since %llu at %llu: %d times", i, (unsigned long long)last[i],
				 (unsigned long long)since, (unsigned long long)j.seq(), it[i]);
		MC_CHECK(ex, "iterate", !ex.failed(), "see before");
	}
	void checkAll()
	{
		Seq now = j.seq();
		Seq s[] = {0, 1, now, now + 1, now - 1, now - Precise, now - Precise + 1, now - Moved, now - Moved - 1, now - Window};
		for(Seq x : s)
			if(x <= now + 1)
				check(x);
		for(Seq l : last) {
			check(l);
			check(l + 1);
		}
	}
	// Send updates to the copy.
	void update(bool exact)
	{
		size_t ks = j.keySize();
		size_t max = 0;
		for(auto& o : objs)
			max += o.len + 2 * ks;
		// As received by SyncConnection: 3 bytes before.
		std::unique_ptr<uint8_t[]> b(new uint8_t[max + 3]);
		uint8_t* e = b.get() + 3;
		Seq since = copied;
		std::vector<int> want;
		for(size_t i = 0; i < objs.size(); i++)
			want.push_back(expect(i, since));
		Seq now = j.seq();
		Seq r = j.encodeUpdates(e, since);
		unpoison();
		MC_CHECK(ex, "seq", r == j.seq(), "%llu", (unsigned long long)r);
		for(auto l : last)
			MC_CHECK(ex, "seq", l < r, "%llu", (unsigned long long)r);
		(void)now;
		size_t len = (size_t)(e - b.get() - 3);
		ex.trace("update since %llu: %s", (unsigned long long)since, mc::esc(b.get() + 3, len).c_str());
		MC_CHECK(ex, "size", len <= max, "%zu of %zu", len, max);
		// What is in there?
		size_t p = 3;
		std::vector<int> got(objs.size());
		auto num = [&]() {
			size_t v = 0;
			for(size_t k = 0; k < ks; k++)
				v |= (size_t)b[p++] << (8 * k);
			return v;
		};
		std::vector<char> ref = copy;
		while(p < len + 3) {
			size_t k = num();
			size_t l = num();
			bool found = false;
			for(size_t i = 0; i < objs.size(); i++)
				if(objs[i].key == k && objs[i].len == l) {
					got[i]++;
					found = true;
				}
			MC_CHECK(ex, "encoded", found, "key %zu len %zu", k, l);
			MC_CHECK(ex, "encoded", !memcmp(&b[p], &buf[k], l), "data of %zu", k);
			memcpy(&ref[k], &b[p], l);
			p += l;
		}
		MC_CHECK(ex, "encoded", p == len + 3, "%zu of %zu", p, len);
		for(size_t i = 0; i < objs.size(); i++)
			MC_CHECK(ex, "encoded", want[i] == 2 ? got[i] <= 1 : got[i] == want[i],
				 "object %zu changed at %llu is %d times in update since %llu", i, (unsigned long long)last[i], got[i],
				 (unsigned long long)since);
		void* d = b.get() + 3;
		Seq os = other.seq();
		Seq o = other.decodeUpdates(d, len, exact, b.get());
		unpoison();
		MC_CHECK(ex, "decode", o, "refused");
		MC_CHECK(ex, "decode", copy == ref, "contents differ");
		for(size_t i = 0; i < objs.size(); i++)
			if(exact)
				MC_CHECK(ex, "record", other.hasChanged(objs[i].key, os) == (got[i] > 0), "object %zu: %d", i, got[i]);
		bool lost = false;
		for(size_t i = 0; i < objs.size(); i++)
			lost |= cleaned[i];
		if(!lost)
			MC_CHECK(ex, "copy", copy == buf, "copy differs");
		else
			copy = buf;
		copied = r;
	}
};

// Structure of the tree
void tree(Explorer& ex, int nobj, int depth, bool moreBumps)
{
	std::vector<Obj> o;
	for(int i = 0; i < nobj; i++)
		o.push_back(Obj{(Key)(i * 3), (size_t)(1 + i % 3)});
	Sys s(ex, o, (size_t)nobj * 3);
	for(int d = 0; d < depth; d++) {
		int c = d ? ex.choose(nobj) : ex.shardChoose(nobj);
		s.change(c);
		ex.step();
		if(d + 1 < depth && !moreBumps)
			s.bump();
		else if(moreBumps && ex.flip())
			s.bump();
		// Earlier states are checked in the executions that share this prefix.
		if(d + 1 == depth || ex.replaying()) {
			for(Seq x = 0; x <= s.j.seq() + 1; x++)
				s.check(x);
		}
	}
	if(moreBumps)
		s.update(true);
	for(auto l : s.last)
		ex.obs(l);
}

// Long histories
void aging(Explorer& ex, int nobj, int depth, std::vector<Seq> const& jumps, bool clean)
{
	std::vector<Obj> o;
	for(int i = 0; i < nobj; i++)
		o.push_back(Obj{(Key)(i * 4), 4});
	Sys s(ex, o, (size_t)nobj * 4);
	int nj = (int)jumps.size();
	for(int d = 0; d < depth; d++) {
		int n = nobj + nj + 1 + (clean ? 2 : 0);
		int c = d ? ex.choose(n) : ex.shardChoose(n);
		ex.step();
		if(c < nobj)
			s.change(c);
		else if((c -= nobj) < nj)
			s.age(jumps[(size_t)c]);
		else if((c -= nj) == 0)
			s.update(true);
		else if(c == 1)
			s.clean(0);
		else
			s.clean(s.j.seq());
		s.checkAll();
	}
	s.update(false);
	ex.obs(s.j.seq());
	for(auto l : s.last)
		ex.obs(l);
}

// All key sizes
void sizes(Explorer& ex)
{
	static size_t const sz[] = {1, 2, 255, 256, 257, 65535, 65536, 65537, 0xffffff, 0x1000000, 0x1000001};
	size_t size = sz[ex.choose(sizeof(sz) / sizeof(*sz))];
	std::vector<Obj> o;
	auto add = [&](size_t k, size_t l) {
		if(k + l > size)
			return;
		for(auto& x : o)
			if(k < x.key + x.len && x.key < k + l)
				return;
		o.push_back(Obj{(Key)k, l});
	};
	add(0, 1);
	for(size_t b : {255u, 256u, 65535u, 65536u, 0xffffffu, 0x1000000u})
		add(b, 1);
	add(size - 1, 1);
	add(1, 200);
	add(300, 1000);
	add(70000, 66000);
	add(1, 2);
	Sys s(ex, o, size);
	unsigned m = (unsigned)ex.choose(1 << o.size());
	for(size_t i = 0; i < o.size(); i++)
		if(m & (1u << i))
			s.change((int)i);
	s.bump();
	s.update(true);
	if(o.size())
		s.change((int)(m % o.size()));
	s.update(true);
	ex.obs(m);
	ex.step(o.size());
}

// Real store: every way to change an object.
class Store : public STORE_T(Store, stored::Synchronizable, stored::SyncStoreBase) {
	STORE_CLASS(Store, stored::Synchronizable, stored::SyncStoreBase)
public:
	Store() = default;
};

void store(Explorer& ex, int depth)
{
	Store a, b;
	Seq since = a.journal().seq();
	int const n = 8;
	std::vector<std::string> names = {"/a", "/A", "/b", "/B", "/c", "/C", "/d", "/D"};
	std::vector<Seq> last((size_t)n);
	for(int d = 0; d < depth; d++) {
		int o = d ? ex.choose(n) : ex.shardChoose(n);
		int how = ex.choose(3);
		auto var = a.find(names[(size_t)o].c_str());
		MC_CHECK(ex, "find", var.valid(), "%s", names[(size_t)o].c_str());
		size_t len = var.size();
		char cur[16] = {};
		var.get(cur, len);
		if(how == 0) // something else
			cur[0]++;
		if(how == 2 && len > 1)
			cur[1] ^= 3;
		char before[16] = {};
		var.get(before, len);
		Seq now = a.journal().seq();
		var.set(cur, len);
		bool changed = memcmp(before, cur, len) != 0;
		// A string ends at the first terminator.
		if(o == 3)
			changed = strncmp(before, cur, len) != 0;
		ex.trace("%s way %d, changed %d", names[(size_t)o].c_str(), how, (int)changed);
		if(changed)
			last[(size_t)o] = now;
		for(int i = 0; i < n; i++) {
			auto x = a.find(names[(size_t)i].c_str());
			Key k = (Key)a.bufferToKey(x.buffer());
			bool c = a.journal().hasChanged(k, now);
			// Blobs and strings may report a write of the same value.
			if(last[(size_t)i] == now || i != o)
				MC_CHECK(ex, "store-changed", c == (last[(size_t)i] == now), "%s: %d", names[(size_t)i].c_str(), (int)c);
			else if(c)
				last[(size_t)i] = now;
		}
		if(ex.flip()) {
			uint8_t m[Store::MaxMessageSize];
			uint8_t* p = m + 3;
			since = a.journal().encodeUpdates(p, since);
			void* q = m + 3;
			size_t l = (size_t)(p - m - 3);
			MC_CHECK(ex, "size", l + 3 <= sizeof(m), "%zu", l);
			MC_CHECK(ex, "decode", b.journal().decodeUpdates(q, l, true, m), "refused");
			for(auto& nm : names) {
				char x[16] = {}, y[16] = {};
				a.find(nm.c_str()).get(x);
				b.find(nm.c_str()).get(y);
				MC_CHECK(ex, "copy", !memcmp(x, y, 16), "%s", nm.c_str());
			}
		}
		ex.step();
	}
}

} // namespace

void mc::setup(bool th)
{
	int s = slow ? 1 : 0;
	int t = th ? 1 : 0;
	for(int n = 1; n <= 4; n++)
		add(mc::fmt("tree of %d, any bumps", n), "all sequences of changes, followed by a bump or not", n < 4 ? 1 : 4,
		    [=](Explorer& ex) { tree(ex, n, (n < 3 ? 7 : n < 4 ? 6 : 6) + t - s, true); });
	for(int n = 5; n <= 7; n++)
		add(mc::fmt("tree of %d", n), "all sequences of changes", n, [=](Explorer& ex) { tree(ex, n, 7 + t - s, false); });
	std::vector<Seq> jumps = {1, 0x3fff, 0x4001, 0x7fff, 0xc000, 0xc001};
	add("aging", "all sequences of changes, updates and lapses of time", 8,
	    [=](Explorer& ex) { aging(ex, 2, 5 + t - s, jumps, false); });
	add("aging of 3", "all sequences of changes, updates and lapses of time", 6,
	    [=](Explorer& ex) { aging(ex, 3, 6 + t - s, {0x3001, 0x8000}, false); });
	add("aging and clean", "all sequences of changes, updates, cleanups and lapses of time", 8,
	    [=](Explorer& ex) { aging(ex, 2, 5 + t - s, {1, 0x7fff, 0x8001, 0xc001}, true); });
	if(!slow)
		add("slow aging", "all sequences of changes, updates and lapses of time", 8,
		    [=](Explorer& ex) { aging(ex, 2, 8 + t, {0x1ffd}, false); });
	add("sizes", "all key sizes, all subsets of objects at the boundaries", 1, [](Explorer& ex) { sizes(ex); });
	add("store", "all sequences of writes to objects of a store", 8, [=](Explorer& ex) { store(ex, 4 + t - s); });
}

MC_MAIN
