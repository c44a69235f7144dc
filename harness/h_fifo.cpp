// Sequential semantics of the FIFOs, against an ideal queue.
// mc: property=P16 flavour=asan,rel
#include "common/mc.h"
#include <deque>
#include <memory>
#include <stored>

using mc::Explorer;

namespace {

// A non-trivially copyable element.
struct Obj {
	static long live;
	std::unique_ptr<int> p;
	Obj(int x = -1)
		: p(new int(x))
	{
		live++;
	}
	Obj(Obj const& o)
		: p(new int(*o.p))
	{
		live++;
	}
	Obj(int a, int b)
		: p(new int(a + b))
	{
		live++;
	}
	Obj& operator=(Obj const& o)
	{
		*p = *o.p;
		return *this;
	}
	~Obj()
	{
		live--;
	}
};
long Obj::live;

int val(int x)
{
	return x;
}
int val(char x)
{
	return (unsigned char)x;
}
int norm(int x, int)
{
	return x;
}
int norm(int x, char)
{
	return x & 0xff;
}
int norm(int x, Obj const&)
{
	return x;
}
int val(Obj const& x)
{
	return *x.p;
}

template <typename T, size_t Cap, bool TS>
struct FifoTest {
	typedef stored::Fifo<T, Cap, TS> F;

	static void verify(Explorer& ex, F& f, std::deque<int> const& m)
	{
		F const& cf = f;
		MC_CHECK(ex, "available", f.available() == m.size(), "%zu vs %zu", f.available(), m.size());
		MC_CHECK(ex, "empty", f.empty() == m.empty(), " ");
		MC_CHECK(ex, "bounded", f.bounded() == (Cap > 0), " ");
		if(Cap) {
			MC_CHECK(ex, "space", f.space() == Cap - m.size(), "%zu", f.space());
			MC_CHECK(ex, "full", f.full() == (m.size() == Cap), " ");
		} else {
			MC_CHECK(ex, "full", !f.full(), " ");
			MC_CHECK(ex, "space", f.space() > 1000000u, " ");
		}
		MC_CHECK(ex, "chunk", f.available_chunk() <= m.size() && (m.empty() || f.available_chunk() > 0),
			 "%zu of %zu", f.available_chunk(), m.size());
		size_t step = m.size() > 12 ? m.size() / 5 : 1;
		for(size_t i = 0; i < m.size(); i += step) {
			MC_CHECK(ex, "peek", val(cf.peek(i)) == m[i], "[%zu] %d vs %d", i, val(cf.peek(i)), m[i]);
			MC_CHECK(ex, "peek", val(f[i]) == m[i], "[%zu]", i);
		}
		if(!m.empty()) {
			MC_CHECK(ex, "front", val(f.front()) == m.front(), " ");
			MC_CHECK(ex, "front", val(cf.front()) == m.front(), " ");
			MC_CHECK(ex, "peek", val(f.peek(m.size() - 1)) == m.back(), " ");
		}
		// The data in the first chunk is contiguous.
		for(size_t i = 0; i < f.available_chunk(); i += step)
			MC_CHECK(ex, "chunk", val((&f.front())[i]) == m[i], "[%zu]", i);

		auto v = cf.view();
		MC_CHECK(ex, "view", v.size() == m.size() && v.empty() == m.empty(), "%zu", v.size());
		for(size_t i = 0; i < m.size(); i += step)
			MC_CHECK(ex, "view", val(v[i]) == m[i], "[%zu]", i);
		std::vector<T> out(m.size() + 1);
		v.copy(out.data());
		for(size_t i = 0; i < m.size(); i++)
			MC_CHECK(ex, "view copy", val(out[i]) == m[i], "[%zu]", i);
		std::vector<T> sp(m.size() + 1);
		T const* c = v.contiguous(sp.data());
		for(size_t i = 0; i < m.size(); i++)
			MC_CHECK(ex, "view contiguous", val(c[i]) == m[i], "[%zu]", i);
		if(m.size() <= 4) {
			for(size_t o = 0; o <= m.size(); o++) {
				auto s1 = v.subview(o);
				MC_CHECK(ex, "subview", s1.size() == m.size() - o || (o == m.size() && s1.size() == 0),
					 "%zu", s1.size());
				for(size_t l = 0; o + l <= m.size(); l++) {
					auto s = v.subview(o, l);
					MC_CHECK(ex, "subview", s.size() == l, "%zu,%zu: %zu", o, l, s.size());
					for(size_t i = 0; i < l; i++)
						MC_CHECK(ex, "subview", val(s[i]) == m[o + i], " ");
					auto s3 = v;
					s3.lstrip(o);
					s3.rstrip(m.size() - o - l);
					MC_CHECK(ex, "strip", s3.size() == l, "%zu,%zu: %zu", o, l, s3.size());
					for(size_t i = 0; i < l; i++)
						MC_CHECK(ex, "strip", val(s3[i]) == m[o + i], " ");
				}
			}
		}
	}

	static void run(Explorer& ex, int depth, std::vector<size_t> const& bulk)
	{
		long live0 = Obj::live;
		{
			auto f_ = std::make_unique<F>();
			F& f = *f_;
			std::deque<int> m;
			int next = 0;
			size_t pos = 0;
			size_t hw = 0;
			for(int d = 0; d < depth; d++) {
				int nb = (int)bulk.size();
				// push x 5 kinds, pop, clear, drain by iterator
				int op = d == 0 ? ex.shardChoose(5 * nb + nb + 2) : ex.choose(5 * nb + nb + 2);
				ex.step();
				if(op < 5 * nb) {
					size_t n = bulk[(size_t)(op % nb)];
					int kind = op / nb;
					if(Cap && n > Cap - m.size())
						ex.prune(); // not allowed by the interface
					std::vector<T> x;
					for(size_t i = 0; i < n; i++) {
						x.push_back(T(next));
						m.push_back(norm(next++, T()));
					}
					ex.trace("push%d(%zu)", kind, n);
					switch(kind) {
					case 0:
						for(auto const& e : x)
							f.push_back(e);
						break;
					case 1:
						f.push_back(x.data(), n);
						break;
					case 2:
						if(n == 2)
							f.push_back({x[0], x[1]});
						else if(n == 3)
							f.push_back({x[0], x[1], x[2]});
						else if(n == 1)
							f.push_back({x[0]});
						else
							ex.prune();
						break;
					case 3:
						f.push_back(x.begin(), x.end());
						break;
					default:
						if(n > 3)
							ex.prune();
						for(auto const& e : x)
							f.emplace_back(val(e));
					}
				} else if(op < 6 * nb) {
					size_t n = bulk[(size_t)(op - 5 * nb)];
					if(n > m.size())
						ex.prune();
					ex.trace("pop(%zu)", n);
					if(n == 1)
						f.pop_front();
					else
						f.pop_front(n);
					m.erase(m.begin(), m.begin() + (long)n);
					pos += n;
				} else if(op == 6 * nb) {
					ex.trace("clear");
					f.clear();
					pos += m.size();
					m.clear();
				} else {
					ex.trace("drain");
					size_t i = 0;
					for(auto it = f.begin(); it != f.end(); ++it) {
						MC_CHECK(ex, "iterate", i < m.size() && val(*it) == m[i], "[%zu]", i);
						i++;
						if(i == 2)
							break; // incomplete iteration leaves the rest
					}
					if(i == 2) {
						// operator++ was not done for the last one
						i = 1;
					}
					pos += i;
					m.erase(m.begin(), m.begin() + (long)i);
				}
				if(!Cap && m.empty())
					pos = 0;
				hw = std::max(hw, f.size());
				verify(ex, f, m);
				ex.obs((uint64_t)m.size());
				uint64_t h = mc::mix(Cap ? pos % (Cap + 1) : pos, m.size());
				if(!Cap)
					h = mc::mix(h, hw);
				// stale elements matter not; values are only copied.
				if(ex.seen(h, depth - d))
					return;
			}
		}
		MC_CHECK(ex, "leak", Obj::live == live0, "%ld objects", Obj::live - live0);
	}
};

// Unbounded, with the internal move of data: long runs
void unboundedLong(Explorer& ex)
{
	stored::Fifo<int> f;
	std::deque<int> m;
	static int const N[] = {1, 2, 3, 63, 64, 65, 66, 100, 130};
	int next = 0;
	int first = N[ex.shardChoose(9)];
	auto push = [&](int n, bool bulk) {
		if(bulk) {
			std::vector<int> x;
			for(int i = 0; i < n; i++) {
				x.push_back(next);
				m.push_back(next++);
			}
			f.push_back(x.data(), (size_t)n);
		} else
			for(int i = 0; i < n; i++) {
				f.push_back(next);
				m.push_back(next++);
			}
	};
	push(first, false);
	for(int d = 0; d < (mc::slow ? 1 : 2); d++) {
		int p = N[ex.choose(9)];
		if((size_t)p > m.size())
			ex.prune();
		f.pop_front((size_t)p);
		m.erase(m.begin(), m.begin() + p);
		FifoTest<int, 0, false>::verify(ex, f, m);
		int q = N[ex.choose(9)];
		bool bulk = ex.flip();
		ex.trace("first %d pop %d push %d bulk %d", first, p, q, bulk);
		push(q, bulk);
		FifoTest<int, 0, false>::verify(ex, f, m);
		ex.obs(f.size());
		ex.step(2);
	}
	// Bounded memory: the queue does not grow when it remains almost empty.
	for(int i = 0; i < 600; i++) {
		push(1, false);
		f.pop_front();
		m.pop_front();
	}
	FifoTest<int, 0, false>::verify(ex, f, m);
	MC_CHECK(ex, "growth", f.size() <= 1000, "%zu", f.size());
}

template <size_t Cap, size_t Msgs>
struct MsgTest {
	typedef stored::MessageFifo<Cap, Msgs, false> F;

	static std::string content(int id, size_t len)
	{
		std::string s;
		for(size_t i = 0; i < len; i++)
			s += (char)('A' + (id * 7 + (int)i) % 57);
		return s;
	}

	static std::string str(stored::Message const& m)
	{
		return std::string(m.data() ? m.data() : "", m.size());
	}

	static void verify(Explorer& ex, F& f, std::deque<std::string> const& m, std::string const& partial)
	{
		MC_CHECK(ex, "available", f.available() == m.size(), "%zu vs %zu", f.available(), m.size());
		MC_CHECK(ex, "empty", f.empty() == m.empty(), " ");
		if(!m.empty()) {
			MC_CHECK(ex, "front", str(f.front()) == m.front(), "%s vs %s", mc::esc(str(f.front())).c_str(),
				 mc::esc(m.front()).c_str());
			F const& cf = f;
			auto v = cf.front();
			MC_CHECK(ex, "front", v.size() == m.front().size()
						      && std::string(v.data() ? v.data() : "", v.size()) == m.front(),
				 " ");
		}
		if(Cap) {
			MC_CHECK(ex, "space", f.space() <= f.capacity(), "%zu", f.space());
			if(Msgs && m.size() >= Msgs)
				MC_CHECK(ex, "full", f.full() && f.space() == 0, " ");
			MC_CHECK(ex, "full", f.full() || f.space() > 0, " ");
			if(m.empty() && partial.empty())
				MC_CHECK(ex, "full", !f.full(), " ");
		}
		size_t total = partial.size();
		for(auto& s : m)
			total += s.size();
		if(Cap)
			MC_CHECK(ex, "capacity", total <= Cap, "%zu", total);
	}

	static void run(Explorer& ex, int depth, std::vector<size_t> const& lens, bool deep)
	{
		auto f_ = std::make_unique<F>();
		F& f = *f_;
		std::deque<std::string> m;
		std::string partial;
		int id = 0;
		std::vector<size_t> hist; // for state hashing: internal positions depend on the history
		size_t vstate = 0;
		for(int d = 0; d < depth; d++) {
			int nl = (int)lens.size();
			int n = 2 * nl + 5;
			int op = d == 0 ? ex.shardChoose(n) : ex.choose(n);
			ex.step();
			if(op < nl) {
				// push a message
				std::string s = content(id++, lens[(size_t)op]);
				size_t sp = f.space();
				bool fl = Msgs && m.size() >= Msgs;
				bool willThrow = Cap && partial.size() + s.size() > f.capacity();
				bool res = false, thrown = false;
				try {
					res = f.push_back(s.data(), s.size());
				} catch(std::bad_alloc&) {
					thrown = true;
				}
				ex.trace("push(%zu)=%d%s", s.size(), res, thrown ? " bad_alloc" : "");
				if(thrown) {
					MC_CHECK(ex, "bad_alloc", willThrow && !fl, " ");
				} else if(res) {
					MC_CHECK(ex, "accept", !fl, "more messages than allowed");
					m.push_back(partial + s);
					partial.clear();
				} else {
					MC_CHECK(ex, "refused", Cap > 0, " ");
					MC_CHECK(ex, "refused",
						 fl || willThrow || s.size() > sp, "%zu refused, while space is %zu",
						 s.size(), sp);
					if(m.empty())
						MC_CHECK(ex, "refused by empty queue",
							 partial.size() + s.size() > f.capacity(), "%zu+%zu", partial.size(),
							 s.size());
				}
				ex.obs((uint64_t)(res ? 1 : thrown ? 2 : 3));
			} else if(op < 2 * nl) {
				std::string s = content(id++, lens[(size_t)(op - nl)]);
				size_t sp = f.space();
				bool fl = Msgs && m.size() >= Msgs;
				bool willThrow = Cap && partial.size() + s.size() > f.capacity();
				bool res = false, thrown = false;
				try {
					res = f.append_back(s.data(), s.size());
				} catch(std::bad_alloc&) {
					thrown = true;
				}
				ex.trace("append(%zu)=%d", s.size(), res);
				if(thrown)
					MC_CHECK(ex, "bad_alloc", willThrow, " ");
				else if(res)
					partial += s;
				else {
					MC_CHECK(ex, "refused", fl || willThrow || s.size() > sp, "%zu refused, space %zu",
						 s.size(), sp);
					if(m.empty())
						MC_CHECK(ex, "refused by empty queue",
							 partial.size() + s.size() > f.capacity(), "%zu+%zu", partial.size(),
							 s.size());
				}
				ex.obs((uint64_t)(res ? 4 : 5));
			} else if(op == 2 * nl) {
				// complete the partial message
				bool fl = Msgs && m.size() >= Msgs;
				bool res = f.push_back();
				ex.trace("push()=%d", res);
				MC_CHECK(ex, "push partial", res == !fl, "%d", res);
				if(res) {
					m.push_back(partial);
					partial.clear();
				}
			} else if(op == 2 * nl + 1) {
				ex.trace("reset_back");
				f.reset_back();
				partial.clear();
			} else if(op == 2 * nl + 2) {
				if(m.empty())
					ex.prune();
				ex.trace("pop");
				f.pop_front();
				m.pop_front();
			} else if(op == 2 * nl + 3) {
				ex.trace("drain");
				size_t i = 0;
				for(auto it = f.begin(); it != f.end(); ++it) {
					MC_CHECK(ex, "iterate", i < m.size() && str(*it) == m[i], "[%zu]", i);
					i++;
				}
				MC_CHECK(ex, "iterate", i == m.size(), "%zu of %zu", i, m.size());
				m.clear();
			} else {
				ex.trace("clear");
				f.clear();
				m.clear();
				partial.clear();
			}
			verify(ex, f, m, partial);
			if(deep) {
				// Positions follow from where the messages are.
				uint64_t h = f.space();
				h = mc::mix(h, f.size());
				h = mc::mix(h, partial.size());
				F const& cf = f;
				char const* base = (char const*)&f;
				std::deque<std::string> mm = m;
				if(!m.empty() && !m.front().empty())
					h = mc::mix(h, (uint64_t)(cf.front().data() - base));
				for(auto& s : m)
					h = mc::mix(h, s.size() + 1);
				if(Cap == 0 || m.empty())
					h = mc::mix(h, vstate);
				if(ex.seen(h, depth - d))
					return;
			}
		}
		// All that is left comes out.
		for(auto& s : m) {
			MC_CHECK(ex, "drain", !f.empty() && str(f.front()) == s, "%s", mc::esc(str(f.front())).c_str());
			f.pop_front();
		}
		MC_CHECK(ex, "drain", f.empty(), " ");
		if(f.push_back())
			MC_CHECK(ex, "partial", str(f.front()) == partial, "%s vs %s", mc::esc(str(f.front())).c_str(),
				 mc::esc(partial).c_str());
	}
};

struct Sink : public stored::ProtocolLayer {
	std::vector<std::string> msgs;
	void decode(void* b, size_t l) override
	{
		msgs.emplace_back((char const*)b, l);
	}
};

template <size_t Cap, size_t Msgs>
void loopback(Explorer& ex, int depth)
{
	typedef stored::FifoLoopback<Cap, Msgs> L;
	Sink a, b;
	L l(a, b);
	std::deque<std::string> q[2];
	std::string partial[2];
	bool dropping[2] = {false, false};
	int id = 0;
	size_t mtu = a.mtu();
	MC_CHECK(ex, "mtu", mtu > 0 && mtu == b.mtu(), "%zu", mtu);
	int handled = 0;
	bool retry = false;
	int mode = ex.shardChoose(3);
	auto& d0 = l.a2b();
	auto& d1 = l.b2a();
	if(mode) {
		auto h = [&]() {
			handled++;
			if(!retry)
				return false;
			// Make room
			retry = false;
			d0.recv();
			d1.recv();
			return true;
		};
		d0.setOverflowHandler(decltype(h)(h));
		d1.setOverflowHandler(decltype(h)(h));
	}
	std::vector<size_t> lens = {1, 0, mtu, mtu / 2};
	for(int d = 0; d < depth; d++) {
		int op = ex.choose(2 * 4 * 2 + 3);
		ex.step();
		if(op < 16) {
			int side = op & 1;
			bool last = op & 2;
			std::string s = MsgTest<1, 1>::content(id++, lens[(size_t)(op >> 2)]);
			if(partial[side].size() + s.size() > mtu)
				ex.prune();
			Sink& from = side ? b : a;
			auto& fifo = side ? d1 : d0;
			bool wasEmpty = fifo.empty();
			int h0 = handled;
			size_t avail0 = fifo.available();
			size_t recvd0 = (side ? a : b).msgs.size();
			if(mode == 2)
				retry = true;
			int err0 = fifo.lastError();
			from.encode(s.data(), s.size(), last);
			bool over = mode ? handled != h0 : (fifo.lastError() == ENOMEM && err0 != ENOMEM);
			if(dropping[side]) {
				// The rest of a dropped message goes too.
				MC_CHECK(ex, "dropped as a whole", handled == h0 && fifo.available() == avail0, " ");
				ex.trace("%c rest %zu%s", side ? 'b' : 'a', s.size(), last ? "" : "..");
				if(last)
					dropping[side] = false;
				ex.obs(d0.available() * 16 + d1.available());
				continue;
			}
			if(mode == 0 && over)
				fifo.reset();
			ex.trace("%c send %zu%s%s", side ? 'b' : 'a', s.size(), last ? "" : "..", over ? " overflow" : "");
			if(mode == 2) {
				// The handler received one message in both directions when it was called.
				if(over) {
					for(int i = 0; i < 2; i++) {
						Sink& to = i ? a : b;
						while(!to.msgs.empty()) {
							MC_CHECK(ex, "recv", !q[i].empty() && to.msgs.front() == q[i].front(), " ");
							q[i].pop_front();
							to.msgs.erase(to.msgs.begin());
						}
					}
				}
			}
			(void)recvd0;
			bool accepted = last ? fifo.available() + (mode == 2 && over ? 1u : 0u) > avail0
					     : true;
			if(mode == 2 && over) {
				// See what happened by the contents, as the handler may have freed space.
				accepted = last ? fifo.available() == q[side].size() + 1 : handled == h0 + 1;
			} else if(!last)
				accepted = !over;
			if(wasEmpty)
				MC_CHECK(ex, "refused by empty queue", accepted, "%zu, mtu %zu", s.size(), mtu);

			if(accepted) {
				partial[side] += s;
				if(last) {
					q[side].push_back(partial[side]);
					partial[side].clear();
				}
			} else {
				MC_CHECK(ex, "silent drop", over, " ");
				partial[side].clear();
				dropping[side] = !last;
			}
		} else if(op < 18) {
			int side = op & 1;
			auto& fifo = side ? d1 : d0;
			Sink& to = side ? a : b;
			int r = fifo.recv();
			ex.trace("%c recv=%d", side ? 'a' : 'b', r);
			if(q[side].empty()) {
				MC_CHECK(ex, "recv", r == EAGAIN && to.msgs.empty(), "%d", r);
			} else {
				MC_CHECK(ex, "recv", r == 0 && to.msgs.size() == 1 && to.msgs[0] == q[side].front(), "%d", r);
				q[side].pop_front();
				to.msgs.clear();
			}
		} else {
			d0.recvAll();
			d1.recvAll();
			for(int i = 0; i < 2; i++) {
				Sink& to = i ? a : b;
				MC_CHECK(ex, "recvAll", to.msgs.size() == q[i].size(), " ");
				for(size_t j = 0; j < q[i].size(); j++)
					MC_CHECK(ex, "recvAll", to.msgs[j] == q[i][j], " ");
				to.msgs.clear();
				q[i].clear();
			}
		}
		MC_CHECK(ex, "available", d0.available() == q[0].size() && d1.available() == q[1].size(), " ");
		ex.obs(mc::mix(q[0].size(), q[1].size()));
	}
}

template <typename T, size_t Cap, bool TS>
void addFifo(char const* tn, int depth, std::vector<size_t> bulk, bool quick = true)
{
	mc::add(mc::fmt("fifo<%s,%zu,%d>", tn, Cap, TS),
		mc::fmt("all sequences of %d operations, batches of up to %zu, every fill position", depth,
			bulk.back()),
		Cap > 100 ? 4 : 1, [=](Explorer& ex) { FifoTest<T, Cap, TS>::run(ex, depth, bulk); }, quick);
}

template <size_t Cap, size_t Msgs>
void addMsg(int depth, std::vector<size_t> lens, bool deep, int shards = 4)
{
	mc::add(mc::fmt("msgfifo<%zu,%zu>%s", Cap, Msgs, deep ? " deep" : ""),
		mc::fmt("all sequences of %d operations, message lengths up to %zu%s", depth, lens.back(),
			deep ? ", equal states explored once" : ""),
		shards, [=](Explorer& ex) { MsgTest<Cap, Msgs>::run(ex, depth, lens, deep); });
}

} // namespace

void mc::setup(bool th)
{
	int k = th ? 2 : 0;
	addFifo<int, 1, true>("int", 8 + k, {1});
	addFifo<int, 2, true>("int", 10 + k, {1, 2});
	addFifo<int, 3, true>("int", 10 + k, {1, 2, 3});
	addFifo<int, 3, false>("int", 10 + k, {1, 2, 3});
	addFifo<int, 4, true>("int", 10 + k, {1, 2, 3, 4});
	addFifo<Obj, 3, true>("Obj", 10 + k, {1, 2, 3});
	addFifo<Obj, 2, false>("Obj", 10 + k, {1, 2});
	addFifo<int, 7, true>("int", 12 + k, {1, 3, 6, 7});
	addFifo<char, 15, true>("char", 8 + k, {1, 7, 8, 15});
	addFifo<int, 126, true>("int", 6 + k, {1, 2, 63, 125, 126});
	addFifo<int, 127, true>("int", 6 + k, {1, 2, 64, 126, 127});
	addFifo<int, 128, true>("int", 6 + k, {1, 2, 64, 127, 128});
	addFifo<int, 200, true>("int", 5 + k, {1, 100, 199, 200});
	addFifo<int, 254, true>("int", 6 + k, {1, 2, 127, 253, 254});
	addFifo<int, 255, true>("int", 6 + k, {1, 2, 128, 254, 255});
	addFifo<int, 256, true>("int", 6 + k, {1, 2, 128, 255, 256});
	addFifo<char, 40000, true>("char", 3, {1, 20000, 39999, 40000});
	addFifo<char, 65534, true>("char", 3, {1, 32768, 65533, 65534});
	addFifo<char, 65535, true>("char", 3, {1, 32768, 65534, 65535}, th);
	addFifo<int, 0, false>("int", 6 + k, {1, 2, 64, 65});
	addFifo<Obj, 0, false>("Obj", 6 + k, {1, 2, 66});
	mc::add("unbounded long", "all combinations of 3-5 batches of 9 sizes around the compaction threshold", 4,
		unboundedLong);

	int e = th ? 1 : 0;
	addMsg<4, 2>(6 + e, {0, 1, 2, 3}, false);
	addMsg<8, 4>(5 + e, {0, 1, 3, 7, 8}, false);
	addMsg<16, 4>(5 + e, {0, 1, 7, 15, 16}, false);
	addMsg<4, 2>(12, {0, 1, 2, 3, 4}, true);
	addMsg<5, 3>(12, {0, 1, 2, 3, 4, 5}, true);
	addMsg<8, 2>(11, {0, 1, 2, 4, 5, 7, 8}, true);
	addMsg<8, 4>(10, {0, 1, 2, 3, 4, 5, 6, 7, 8}, true);
	addMsg<130, 3>(8, {1, 64, 65, 66, 129, 130}, true);
	addMsg<200, 3>(8, {1, 56, 99, 100, 199, 200}, true);
	addMsg<255, 3>(8, {1, 127, 128, 254, 255}, true);
	addMsg<256, 3>(8, {1, 127, 128, 255, 256}, true);
	addMsg<0, 0>(6 + e, {0, 1, 2, 70}, false);
	mc::add("loopback<8,2>", "all sequences of 4 (5 without sanitizers) sends (whole/partial), receives in both directions", 8,
		[=](Explorer& ex) { loopback<8, 2>(ex, (th ? 5 : 4) + !mc::slow); });
	mc::add("loopback<16,4>", "all sequences of 4 (5 without sanitizers) sends (whole/partial), receives in both directions", 8,
		[=](Explorer& ex) { loopback<16, 4>(ex, (th ? 5 : 4) + !mc::slow); });
}

MC_MAIN
