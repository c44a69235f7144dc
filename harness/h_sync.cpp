// mc: property=P06 flavour=asan,opt stores=SyncStore,SyncTwo
//
// Real Synchronizers, connected in trees: all interleavings of writes, processing, delivery and reconnects.
#include "SyncStore.h"
#include "SyncTwo.h"

#include <libstored/synchronizer.h>

#include "common/mc.h"

#include <deque>
#include <map>
#include <memory>

using mc::Explorer;

namespace {

class Store : public STORE_T(Store, stored::Synchronizable, stored::SyncStoreBase) {
	STORE_CLASS(Store, stored::Synchronizable, stored::SyncStoreBase)
public:
	Store() = default;
};

class Two : public STORE_T(Two, stored::Synchronizable, stored::SyncTwoBase) {
	STORE_CLASS(Two, stored::Synchronizable, stored::SyncTwoBase)
public:
	Two() = default;
};

struct Wire : stored::ProtocolLayer {
	std::deque<std::string> out;
	std::string partial;
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(last) {
			out.push_back(partial);
			partial.clear();
		}
	}
	using stored::ProtocolLayer::encode;
};

int const Writers = 4;

// Both objects written by one process.
struct Tuple {
	std::string v;
	bool operator==(Tuple const& o) const
	{
		return v == o.v;
	}
};

struct Node {
	std::unique_ptr<Store> store{new Store()};
	std::unique_ptr<Two> two;
	stored::Synchronizer sync;
	uint64_t inputs = 0;
	int writes = 0;
	bool welcomed = false;

	void input(uint64_t v)
	{
		inputs = mc::mix(inputs, v);
	}
	// Objects of the given writer, as seen here.
	std::string tuple(int w)
	{
		switch(w) {
		case 0: return mc::fmt("%d,%d", (int)store->a.get(), (int)store->A.get());
		case 1: {
			char buf[8] = {};
			store->B.get(buf, 4);
			return mc::fmt("%d,%s", (int)store->b.get(), buf);
		}
		case 2: {
			char buf[4] = {};
			store->C.get(buf, 3);
			return mc::fmt("%d,%02x%02x%02x", (int)store->c.get(), buf[0], buf[1], buf[2]);
		}
		default: return mc::fmt("%d,%g", (int)store->d.get(), store->D.get());
		}
	}
	void write(int w, int which, int n)
	{
		switch(w * 2 + which) {
		case 0: store->a = n; break;
		case 1: store->A = n; break;
		case 2: store->b = (int16_t)n; break;
		case 3: store->B.set(mc::fmt("%d", n % 1000).c_str()); break;
		case 4: store->c = (int8_t)n; break;
		case 5: {
			char buf[3] = {(char)n, (char)(n + 1), (char)(n + 2)};
			store->C.set(buf, 3);
			break;
		}
		case 6: store->d = (uint8_t)n; break;
		case 7: store->D = n; break;
		}
	}
	std::string all()
	{
		std::string s;
		for(int i = 0; i < Writers; i++)
			s += tuple(i) + ";";
		if(two)
			s += mc::fmt("%d,%d", (int)two->x.get(), (int)two->y.get());
		return s;
	}
};

struct Link {
	int up, down; // down gets its initial copy from up
	std::unique_ptr<Wire> w[2]; // wire at up, at down
	bool connected = false;
	int order = 0; // of syncFrom()
	int stale = 0; // Welcomes sent before up was welcomed itself
};

struct World {
	Explorer& ex;
	std::vector<std::unique_ptr<Node>> nodes;
	std::vector<Link> links;
	// All states of the objects of a writer.
	std::vector<std::string> history[Writers];
	std::vector<std::map<int, size_t>> seen; // per node, per writer: index in history
	bool strict = true;
	// Messages were lost, Welcome to be received.
	bool waiting = false;
	bool twoStores = false;
	int x0 = 0, y0 = 0;

	World(Explorer& e, int n, std::vector<std::pair<int, int>> const& l, bool second = false)
		: ex(e)
		, twoStores(second)
	{
		for(int i = 0; i < n; i++) {
			nodes.emplace_back(new Node());
			Node& nd = *nodes.back();
			if(second) {
				nd.two.reset(new Two());
				// Different orders of mapping make different ids.
				nd.sync.map(*nd.two);
			}
			nd.sync.map(*nd.store);
		}
		nodes[0]->welcomed = true;
		if(second) {
			x0 = (int)nodes[0]->two->x.get();
			y0 = (int)nodes[0]->two->y.get();
		}
		for(int i = 0; i < Writers; i++)
			history[i].push_back(nodes[0]->tuple(i));
		seen.resize((size_t)n);
		for(auto& x : l) {
			links.emplace_back();
			links.back().up = x.first;
			links.back().down = x.second;
			links.back().w[0].reset(new Wire());
			links.back().w[1].reset(new Wire());
		}
	}
	~World()
	{
		for(auto& l : links)
			if(l.connected)
				for(int i = 0; i < 2; i++)
					at(l, i).sync.disconnect(*l.w[i]);
	}
	Node& at(Link& l, int side)
	{
		return *nodes[(size_t)(side ? l.down : l.up)];
	}
	int idx(Link& l, int side)
	{
		return side ? l.down : l.up;
	}
	void connect(Link& l)
	{
		for(int i = 0; i < 2; i++) {
			at(l, i).sync.connect(*l.w[i]);
			at(l, i).input(100 + mc::mix((uint64_t)(&l - &links[0]), (uint64_t)i));
		}
		l.connected = true;
		syncFrom(l, l.order = 0);
	}
	void syncFrom(Link& l, int order)
	{
		Node& d = at(l, 1);
		if(twoStores && order)
			d.sync.syncFrom(*d.two, *l.w[1]);
		d.sync.syncFrom(*d.store, *l.w[1]);
		if(twoStores && !order)
			d.sync.syncFrom(*d.two, *l.w[1]);
		d.input(200 + (uint64_t)order);
	}
	bool quietBelow(int n)
	{
		for(auto& l : links)
			if(l.up == n && !(l.w[0]->out.empty() && l.w[1]->out.empty()))
				return false;
		return true;
	}
	void unmap(int n)
	{
		Node& nd = *nodes[(size_t)n];
		nd.sync.unmap(*nd.store);
		nd.sync.map(*nd.store);
		nd.input(700);
		for(auto& l : links)
			if(l.down == n)
				syncFrom(l, 0);
		// To be handled before a reset of the other side crosses it.
		for(auto& l : links)
			if(l.up == n)
				while(!l.w[0]->out.empty())
					deliver(l, 0);
	}
	void check(int n, char const* what)
	{
		Node& nd = *nodes[(size_t)n];
		if(nd.two)
			MC_CHECK(ex, "two", nd.two->x.get() == x0 && nd.two->y.get() == y0, "node %d has %d,%d after %s, although nobody wrote it", n,
				 (int)nd.two->x.get(), (int)nd.two->y.get(), what);
		for(int w = 0; w < Writers; w++) {
			std::string t = nd.tuple(w);
			auto& h = history[w];
			size_t last = seen[(size_t)n][w];
			size_t i = last;
			while(i < h.size() && h[i] != t)
				i++;
			if(!strict) {
				for(i = 0; i < h.size() && h[i] != t; i++)
					;
			}
			if(i == h.size()) {
				bool old = false;
				for(auto& x : h)
					old |= x == t;
				ex.fail(old ? "older" : "foreign",
					mc::fmt("node %d has %s of writer %d after %s, was %s, writer has %s", n, t.c_str(), w, what,
						h[last].c_str(), h.back().c_str()));
			}
			if(strict && w == n && nd.welcomed)
				MC_CHECK(ex, "own", i == h.size() - 1, "node %d has %s instead of its own %s after %s", n, t.c_str(),
					 h.back().c_str(), what);
			seen[(size_t)n][w] = i;
		}
	}
	void write(int n, int which)
	{
		Node& nd = *nodes[(size_t)n];
		nd.writes++;
		nd.write(n, which, nd.writes + 10);
		nd.input(300 + (uint64_t)which);
		history[n].push_back(nd.tuple(n));
		ex.trace("%d writes %s", n, history[n].back().c_str());
		if(!waiting)
			check(n, "write");
	}
	void deliver(Link& l, int from)
	{
		Wire& f = *l.w[from];
		std::string m = f.out.front();
		f.out.pop_front();
		int to = idx(l, !from);
		ex.trace("%d->%d: %s", idx(l, from), to, mc::esc(m).c_str());
		Node& nd = at(l, !from);
		nd.input(mc::mix(mc::hashStr(m), 400 + (uint64_t)(&l - &links[0])));
		std::vector<int> before;
		for(auto& k : links) {
			before.push_back(0);
			for(auto& q : k.w[0]->out)
				before.back() += q[0] == 'w';
		}
		// Receive buffers are aligned and writable.
		std::unique_ptr<char[]> b(new char[m.size() ? m.size() : 1]);
		memcpy(b.get(), m.data(), m.size());
		l.w[!from]->decode(b.get(), m.size());
		if(!m.empty() && m[0] == 'w' && from == 0) {
			// Only now, this is a copy of the root.
			if(l.stale)
				l.stale--;
			else if(at(l, 0).welcomed && !nd.welcomed) {
				nd.welcomed = true;
				for(size_t i = 0; i < links.size(); i++)
					if(links[i].up == to)
						links[i].stale = before[i];
			}
		}
		if(waiting && quiet())
			waiting = false;
		if(!waiting)
			check(to, "delivery");
	}
	bool quiet()
	{
		for(auto& l : links)
			if(!l.w[0]->out.empty() || !l.w[1]->out.empty())
				return false;
		return true;
	}
	void drain(char const* what)
	{
		for(int round = 0;; round++) {
			MC_CHECK(ex, "endless", round < 60, "%s", what);
			for(size_t i = 0; i < nodes.size(); i++) {
				nodes[i]->sync.process();
				nodes[i]->input(500);
			}
			if(quiet())
				break;
			for(auto& l : links)
				for(int i = 0; i < 2; i++)
					while(!l.w[i]->out.empty())
						deliver(l, i);
		}
		std::string s = nodes[0]->all();
		for(size_t i = 1; i < nodes.size(); i++)
			MC_CHECK(ex, "converge", nodes[i]->all() == s, "%s: node 0 has %s, node %zu has %s", what, s.c_str(), i,
				 nodes[i]->all().c_str());
		if(strict)
			for(int w = 0; w < (int)nodes.size(); w++)
				MC_CHECK(ex, "final", nodes[0]->tuple(w) == history[w].back(), "%s: %s of %s", what,
					 nodes[0]->tuple(w).c_str(), history[w].back().c_str());
	}
	uint64_t hash()
	{
		uint64_t h = (uint64_t)(strict * 2 + waiting);
		for(auto& n : nodes) {
			
			h = mc::mix(h, n->inputs);
			h = mc::mix(h, (uint64_t)n->writes);
		}
		for(auto& l : links)
			for(int i = 0; i < 2; i++) {
				h = mc::mix(h, l.w[i]->out.size() + 77 + (uint64_t)l.order * 1000);
				for(auto& m : l.w[i]->out)
					h = mc::mix(h, mc::hashStr(m));
			}
		return h;
	}
};

struct Topo {
	char const* name;
	int n;
	std::vector<std::pair<int, int>> links;
};

struct Cfg {
	Topo t;
	int depth;
	int writes;	 // in total
	int reconnects; // budget
	bool connected;
	bool perLink; // process single connections too
	bool two;
	int firstWriter; // -1: all
};

enum { LinkFailure, DownRestarts, UpRestarts, UpResets, DownResets, DownUnmaps, UpUnmaps, ReconnectKinds };
char const* const rname[] = {"link failure", "down disconnects and connects", "up disconnects and connects", "up resets", "down resets", "down unmaps and maps",
			     "up unmaps and maps"};

void run(Explorer& ex, Cfg const& c)
{
	World w(ex, c.t.n, c.t.links, c.two);
	ex.budget(c.reconnects);
	for(auto& l : w.links)
		w.connect(l);
	if(c.connected)
		w.drain("connect");
	int writes = c.writes;
	for(int d = 0; d < c.depth; d++) {
		if(d && ex.seen(mc::mix(w.hash(), (uint64_t)writes), c.depth - d))
			ex.prune();
		struct Op {
			int k, a, b;
		};
		std::vector<Op> ops;
		for(int i = 0; i < c.t.n; i++) {
			Node& n = *w.nodes[(size_t)i];
			if(writes && n.welcomed) {
				ops.push_back({0, i, 0});
				ops.push_back({0, i, 1});
			}
			int deg = 0;
			for(auto& l : w.links)
				deg += l.up == i || l.down == i;
			ops.push_back({1, i, 0});
			if(deg > 1 && c.perLink)
				for(size_t j = 0; j < w.links.size(); j++)
					for(int s = 0; s < 2; s++)
						if(w.idx(w.links[j], s) == i)
							ops.push_back({2, (int)j, s});
		}
		for(size_t j = 0; j < w.links.size(); j++)
			for(int s = 0; s < 2; s++)
				if(!w.links[j].w[s]->out.empty())
					ops.push_back({3, (int)j, s});
		if(ex.budget() > 0)
			for(size_t j = 0; j < w.links.size(); j++)
				for(int k = 0; k < ReconnectKinds; k++) {
					// The one that provides the initial copy should not stop while
					// the other is waiting for it.
					Link& l = w.links[j];
					if((k == UpRestarts && !l.w[1]->out.empty())
					   || (k == UpUnmaps && !w.quietBelow(l.up))
					   || (k == DownUnmaps && !w.quietBelow(l.down)))
						continue;
					ops.push_back({4, (int)j, k});
				}
		int o = d ? ex.choose((int)ops.size()) : ex.shardChoose((int)ops.size());
		Op op = ops[(size_t)o];
		ex.step();
		switch(op.k) {
		case 0:
			writes--;
			w.write(op.a, op.b);
			break;
		case 1:
			ex.trace("%d processes", op.a);
			w.nodes[(size_t)op.a]->sync.process();
			w.nodes[(size_t)op.a]->input(500);
			break;
		case 2: {
			Link& l = w.links[(size_t)op.a];
			ex.trace("%d processes for %d", w.idx(l, op.b), w.idx(l, !op.b));
			w.at(l, op.b).sync.process(*l.w[op.b]);
			w.at(l, op.b).input(600 + (uint64_t)op.a);
			break;
		}
		case 3: w.deliver(w.links[(size_t)op.a], op.b); break;
		case 4: {
			ex.budget(ex.budget() - 1);
			w.strict = false;
			Link& l = w.links[(size_t)op.a];
			Node& up = w.at(l, 0);
			Node& down = w.at(l, 1);
			ex.trace("%d-%d: %s", l.up, l.down, rname[op.b]);
			up.input(1000 + (uint64_t)(op.a * 10 + op.b));
			down.input(1000 + (uint64_t)(op.a * 10 + op.b));
			switch(op.b) {
			case LinkFailure:
				up.sync.disconnect(*l.w[0]);
				down.sync.disconnect(*l.w[1]);
				l.w[0]->out.clear();
				l.w[1]->out.clear();
				w.connect(l);
				w.waiting = true;
				break;
			case DownRestarts:
				l.order = !l.order;
				down.sync.disconnect(*l.w[1]);
				// A new connection does not see what was sent to the previous one.
				l.w[0]->out.clear();
				down.sync.connect(*l.w[1]);
				w.syncFrom(l, l.order);
				w.waiting = true;
				break;
			case UpRestarts:
				// The other side hears so by a Bye.
				up.sync.disconnect(*l.w[0]);
				up.sync.connect(*l.w[0]);
				w.waiting = true;
				break;
			case UpResets: l.w[0]->up()->reset(); break;
			case DownResets: l.w[1]->up()->reset(); break;
			case DownUnmaps: w.unmap(l.down); break;
			case UpUnmaps: w.unmap(l.up); break;
			default:;
			}
			break;
		}
		default:;
		}
	}
	ex.obs(w.nodes[0]->all());
	w.drain("drain");
	w.strict = true;
	for(int i = 0; i < c.t.n; i++)
		for(int k = 0; k < Writers; k++) {
			w.seen[(size_t)i][k] = w.history[k].size();
			w.history[k].push_back(w.nodes[0]->tuple(k));
		}
	for(int i = 0; i < c.t.n; i++) {
		w.write(i, 0);
		w.write(i, 1);
	}
	w.drain("afterwards");
}

// The ids of the stores of a connection are used up, while other stores keep theirs.
void wrap(Explorer& ex)
{
	int side = ex.shardChoose(2);
	int many = 65528;
	World w(ex, 2, {{0, 1}}, true);
	Link& l = w.links[0];
	w.connect(l);
	w.drain("connect");
	auto flush = [&]() {
		for(int round = 0; round < 10; round++)
			for(int i = 0; i < 2; i++)
				while(!l.w[i]->out.empty()) {
					std::string m = l.w[i]->out.front();
					l.w[i]->out.pop_front();
					l.w[!i]->decode(&m[0], m.size());
				}
	};
	int lap = 0;
	for(int i = 0; i < many; i++) {
		// Only this one gets another id at this side.
		Node& nd = w.at(l, side);
		Node& d = w.at(l, 1);
		nd.sync.unmap(*nd.store);
		nd.sync.map(*nd.store);
		if(side)
			d.sync.syncFrom(*d.store, *l.w[1]);
		flush();
	}
	for(; lap < 12; lap++) {
		Node& nd = w.at(l, side);
		Node& d = w.at(l, 1);
		nd.sync.unmap(*nd.store);
		nd.sync.map(*nd.store);
		if(side)
			d.sync.syncFrom(*d.store, *l.w[1]);
		flush();
		w.strict = false;
		w.write(lap % 2, lap / 2 % 2);
		// The other store, in both directions.
		Node& x = *w.nodes[(size_t)(lap / 2 % 2)];
		x.two->x = w.x0 = 1000 + lap;
		x.two->y = (int16_t)(w.y0 = 2000 + lap);
		for(int r = 0; r < 4; r++) {
			for(auto& n : w.nodes)
				n->sync.process();
			flush();
		}
		std::string s = w.nodes[0]->all();
		MC_CHECK(ex, "wrap", w.nodes[1]->all() == s, "after %d ids: node 0 has %s, node 1 has %s", many + lap, s.c_str(),
			 w.nodes[1]->all().c_str());
		for(auto& n : w.nodes)
			MC_CHECK(ex, "two", n->two->x.get() == w.x0 && n->two->y.get() == w.y0, "after %d ids: %d,%d instead of %d,%d",
				 many + lap, (int)n->two->x.get(), (int)n->two->y.get(), w.x0, w.y0);
		ex.step();
	}
}

} // namespace

void mc::setup(bool th)
{
	add("ids wrap", "65540 ids, for each side", 2, [](Explorer& ex) { wrap(ex); });
	Topo pair{"pair", 2, {{0, 1}}};
	Topo chain{"chain", 3, {{0, 1}, {1, 2}}};
	Topo star{"star", 3, {{0, 1}, {0, 2}}};
	Topo star4{"star of 4", 4, {{0, 1}, {0, 2}, {0, 3}}};
	Topo chain4{"chain of 4", 4, {{0, 1}, {1, 2}, {2, 3}}};
	Topo tree{"tree", 4, {{0, 1}, {1, 2}, {1, 3}}};
	auto a = [&](Topo const& t, Cfg c) {
		c.t = t;
		if(slow)
			c.depth--;
		add(mc::fmt("%s%s%s%s", t.name, c.connected ? "" : ", connecting", c.reconnects ? ", reconnects" : "", c.two ? ", two stores" : ""),
		    mc::fmt("all interleavings of depth %d, %d writes, %d reconnects", c.depth, c.writes, c.reconnects), 8,
		    [=](Explorer& ex) { run(ex, c); });
	};
	int f = th ? 2 : 0;
	a(pair, Cfg{{}, 9 + f, 4, 0, true, false, false, -1});
	a(pair, Cfg{{}, 9 + f, 4, 0, false, false, false, -1});
	a(chain, Cfg{{}, 7 + f, 4, 0, true, true, false, -1});
	a(chain, Cfg{{}, 7 + f, 3, 0, false, true, false, -1});
	a(star, Cfg{{}, 7 + f, 4, 0, true, true, false, -1});
	a(star4, Cfg{{}, 6 + f, 4, 0, true, false, false, -1});
	a(chain4, Cfg{{}, 6 + f, 4, 0, true, false, false, -1});
	a(tree, Cfg{{}, 6 + f, 4, 0, true, false, false, -1});
	a(pair, Cfg{{}, 7 + f, 3, 2, true, false, false, -1});
	a(pair, Cfg{{}, 6 + f, 2, 2, true, false, true, -1});
	a(chain, Cfg{{}, 6 + f, 2, 1, true, false, false, -1});
	a(star, Cfg{{}, 6 + f, 2, 1, true, false, false, -1});
}

MC_MAIN
