// mc: property=P04 flavour=asan,opt
//
// Two real ArqLayers over a faulty channel: all interleavings of send, deliver, trigger, lose, duplicate, reset.
#include <libstored/protocol.h>

#include "common/mc.h"

#include <deque>
#include <memory>

using mc::Explorer;

namespace {

struct Peer;

struct World {
	Explorer& ex;
	std::deque<std::string> ch[2]; // frames sent by peer i
	std::unique_ptr<Peer> p[2];
	bool resets = false;
	void bad(char const* key, std::string const& msg)
	{
		ex.note(key, msg);
	}
	explicit World(Explorer& e)
		: ex(e)
	{}
};

struct Up : stored::ProtocolLayer {
	Peer* p = nullptr;
	void decode(void* b, size_t len) override;
	using stored::ProtocolLayer::encode;
};

struct Down : stored::ProtocolLayer {
	World* w = nullptr;
	int side = 0;
	std::string partial;
	bool muted = false;
	size_t m_mtu = 0;
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(last) {
			if(!muted)
				w->ch[side].push_back(partial);
			if(m_mtu && partial.size() > m_mtu)
				w->ex.note("mtu", mc::fmt("frame of %zu bytes", partial.size()));
			partial.clear();
		}
	}
	size_t mtu() const override
	{
		return m_mtu;
	}
	using stored::ProtocolLayer::encode;
};

struct Peer {
	World& w;
	int side;
	Up up;
	stored::ArqLayer arq;
	Down down;
	// Model
	std::vector<std::string> sent; // by this side
	size_t got = 0;		       // messages of the other side, delivered here
	int dups = 0;		       // reconnects this side saw; it may send the pending message again for each
	bool staleAllowed = false;     // after reset of the other side: a frame in transit may still be delivered
	int reconnects = 0;
	int retransmitEvents = 0;
	int overflows = 0;
	int replies = 0; // number of replies to send from within decode()
	uint64_t inputs = 0;

	Peer(World& world, int s, size_t mtu)
		: w(world)
		, side(s)
	{
		up.p = this;
		arq.wrap(up);
		down.w = &w;
		down.side = s;
		down.m_mtu = mtu;
		down.wrap(arq);
		arq.setEventCallback([this](stored::ArqLayer&, stored::ArqLayer::Event e) {
			switch(e) {
			case stored::ArqLayer::EventReconnect:
				reconnects++;
				dups++;
				w.ex.trace("%c: reconnect", 'A' + side);
				break;
			case stored::ArqLayer::EventRetransmit: retransmitEvents++; break;
			case stored::ArqLayer::EventEncodeBufferOverflow: overflows++; break;
			default: w.ex.note("event", mc::fmt("%d", (int)e));
			}
		});
	}
	Peer& other()
	{
		return *w.p[1 - side];
	}

	void input(uint64_t v)
	{
		inputs = mc::mix(inputs, v);
	}

	std::string next()
	{
		size_t i = sent.size();
		return i % 3 == 2 ? std::string() : mc::fmt("%c%zu", 'a' + side, i);
	}

	void send(int pieces)
	{
		std::string s = next();
		sent.push_back(s);
		w.ex.trace("%c: send %s/%d", 'A' + side, s.c_str(), pieces);
		if(pieces == 2) {
			up.encode(s.data(), s.size() / 2, false);
			up.encode(s.data() + s.size() / 2, s.size() - s.size() / 2, true);
		} else if(pieces == 3) {
			up.encode(s.data(), s.size(), false);
			up.encode();
		} else
			up.encode(s.data(), s.size(), true);
	}

	void received(std::string const& s)
	{
		Peer& o = other();
		w.ex.trace("%c: got %s", 'A' + side, mc::esc(s).c_str());
		if(got < o.sent.size() && o.sent[got] == s) {
			got++;
			staleAllowed = false;
		} else if(o.dups > 0 && got > 0 && o.sent[got - 1] == s) {
			o.dups--;
		} else if(staleAllowed) {
			// anything it ever sent
			for(auto& x : o.sent)
				if(x == s) {
					staleAllowed = false;
					return;
				}
			w.bad("foreign message", mc::esc(s));
		} else
			w.bad("order", mc::fmt("peer %c got %s, while message %zu of %zu is next", 'A' + side,
						   mc::esc(s).c_str(), got, o.sent.size()));
		if(replies > 0) {
			replies--;
			send(1);
		}
	}

	void feed(std::string const& f)
	{
		std::unique_ptr<char[]> b(new char[f.size()]);
		memcpy(b.get(), f.data(), f.size());
		down.decode(b.get(), f.size());
	}
};

void Up::decode(void* b, size_t len)
{
	p->received(std::string((char const*)b, len));
}

void deliver(World& w, int from, bool keep = false)
{
	std::string f = w.ch[from].front();
	if(!keep)
		w.ch[from].pop_front();
	w.ex.trace("%c->%c %s%s", 'A' + from, 'B' - from, mc::esc(f).c_str(), keep ? " (again later)" : "");
	w.p[1 - from]->input(mc::hashStr(f));
	w.p[1 - from]->feed(f);
}

bool idle(World& w)
{
	return w.ch[0].empty() && w.ch[1].empty() && !w.p[0]->arq.waitingForAck() && !w.p[1]->arq.waitingForAck();
}

// The channel behaves from here, and the layers are triggered now and then.
void drain(World& w, char const* what)
{
	for(int round = 0; !idle(w); round++) {
		if(round >= 100) {
			w.bad("stuck", mc::fmt("%s: %zu and %zu sent; %zu and %zu received", what, w.p[0]->sent.size(),
					       w.p[1]->sent.size(), w.p[1]->got, w.p[0]->got));
			throw mc::Violation();
		}
		for(int i = 0; i < 2; i++)
			while(!w.ch[i].empty()) {
				deliver(w, i);
				if(w.ch[0].size() + w.ch[1].size() >= 50) {
					w.bad("storm", what);
					throw mc::Violation();
				}
				if(w.ex.failed())
					throw mc::Violation();
			}
		for(int i = 0; i < 2; i++)
			if(w.ch[0].empty() && w.ch[1].empty() && w.p[i]->arq.waitingForAck())
				w.p[i]->arq.keepAlive();
	}
	for(int i = 0; i < 2; i++)
		if(w.p[1 - i]->got != w.p[i]->sent.size()) {
			w.bad("lost", mc::fmt("%s: %c got %zu of %zu", what, 'B' - i, w.p[1 - i]->got, w.p[i]->sent.size()));
			throw mc::Violation();
		}
	if(w.ex.failed())
		throw mc::Violation();
}

struct Cfg {
	int depth;
	int sends;    // per side
	int faults;   // deviations
	int prelude0; // messages exchanged before
	int prelude1;
	int replies;
	int resets; // 0: none, 1: with channel flush, 2: without
	size_t mtu;
	bool pieces;
};

void run(Explorer& ex, Cfg const& c)
{
	ex.budget(c.faults);
	World w(ex);
	w.p[0].reset(new Peer(w, 0, c.mtu));
	w.p[1].reset(new Peer(w, 1, c.mtu));
	Peer& a = *w.p[0];
	Peer& b = *w.p[1];
	bool connected = c.prelude0 + c.prelude1 > 0;
	if(connected) {
		bool t = ex.tracing;
		ex.tracing = false;
		for(int i = 0; i < c.prelude0 || i < c.prelude1; i++) {
			if(i < c.prelude0)
				a.send(1);
			if(i < c.prelude1)
				b.send(1);
			drain(w, "prelude");
		}
		ex.tracing = t;
	}
	a.dups = b.dups = 0;
	a.replies = b.replies = c.replies;
	int sends[2] = {c.sends, c.sends};
	int resets = c.resets ? 1 : 0;
	size_t sent0[2] = {a.sent.size(), b.sent.size()};
	(void)sent0;

	for(int d = 0; d < c.depth; d++) {
		uint64_t h = mc::mix(a.inputs, b.inputs);
		for(int i = 0; i < 2; i++) {
			h = mc::mix(h, w.ch[i].size());
			for(auto& f : w.ch[i])
				h = mc::mix(h, mc::hashStr(f));
			h = mc::mix(h, w.p[i]->got * 100 + w.p[i]->sent.size());
			h = mc::mix(h, (uint64_t)(w.p[i]->dups * 1024 + w.p[i]->staleAllowed + 4 * sends[i] + 64 * w.p[i]->replies));
		}
		h = mc::mix(h, (uint64_t)resets);
		if(d && ex.seen(h, c.depth - d))
			ex.prune();
		// Default choices are free, the others are faults.
		struct Op {
			int k, side, arg;
		};
		std::vector<Op> ops;
		for(int i = 0; i < 2; i++) {
			if(!w.ch[i].empty())
				ops.push_back({0, i, 0});
			if(sends[i]) {
				ops.push_back({1, i, 1});
				if(c.pieces) {
					ops.push_back({1, i, 2});
					ops.push_back({1, i, 3});
				}
			}
		}
		size_t normal = ops.size();
		if(ex.budget() > 0) {
			for(int i = 0; i < 2; i++) {
				if(!w.ch[i].empty()) {
					ops.push_back({2, i, 0});
					ops.push_back({3, i, 0});
				}
				ops.push_back({4, i, 0});
				if(resets)
					ops.push_back({5, i, 0});
			}
		}
		if(ops.empty())
			break;
		int o = d ? ex.choose((int)ops.size()) : ex.shardChoose((int)ops.size());
		if((size_t)o >= normal)
			ex.budget(ex.budget() - 1);
		Op op = ops[(size_t)o];
		Peer& p = *w.p[op.side];
		ex.step();
		switch(op.k) {
		case 0: deliver(w, op.side); break;
		case 1:
			sends[op.side]--;
			p.input((uint64_t)op.arg);
			p.send(op.arg);
			break;
		case 2:
			ex.trace("lose %c->", 'A' + op.side);
			w.ch[op.side].pop_front();
			break;
		case 3: deliver(w, op.side, true); break;
		case 4:
			ex.trace("%c: trigger", 'A' + op.side);
			p.input(10);
			p.arq.keepAlive();
			break;
		case 5: {
			ex.trace("%c: reset", 'A' + op.side);
			resets--;
			p.input(11);
			if(c.resets == 1) {
				w.ch[0].clear();
				w.ch[1].clear();
			}
			int r0 = p.other().reconnects;
			(void)r0;
			w.resets = true;
			p.arq.reset();
			// What it did not deliver till now is gone.
			p.other().got = p.sent.size();
			p.other().staleAllowed = c.resets == 2;
			break;
		}
		default:;
		}
		if(ex.failed())
			throw mc::Violation();
	}
	int r[2] = {a.reconnects, b.reconnects};
	(void)r;
	drain(w, "drain");
	if(w.resets) {
		a.dups = b.dups = 0;
		a.staleAllowed = b.staleAllowed = false;
	}
	// It still works.
	ex.budget(0);
	for(int i = 0; i < 2; i++) {
		a.send(1);
		b.send(1);
		drain(w, "afterwards");
	}
	ex.obs(a.inputs);
	ex.obs(b.inputs);
}

// The peer of a connected layer restarts.
void restart(Explorer& ex)
{
	World w(ex);
	w.p[0].reset(new Peer(w, 0, 0));
	w.p[1].reset(new Peer(w, 1, 0));
	int n = ex.shardChoose(66);
	for(int i = 0; i < n; i++) {
		w.p[0]->send(1);
		if(i % 2)
			w.p[1]->send(1);
		drain(w, "prelude");
	}
	drain(w, "connect");
	int who = ex.choose(2);
	int pending = ex.choose(3); // of the peer that remains
	int lose = ex.choose(4);
	Peer& x = *w.p[who];
	Peer& y = *w.p[1 - who];
	for(int i = 0; i < pending; i++)
		y.send(1);
	for(int i = 0; i < lose && !w.ch[1 - who].empty(); i++)
		w.ch[1 - who].pop_front();
	int how = ex.choose(3);
	ex.trace("after %d messages, %c restarts with %d pending, %d lost, how=%d", n, 'A' + who, pending, lose, how);
	y.reconnects = 0;
	if(how == 0) {
		x.arq.reset();
		y.got = x.sent.size();
		x.staleAllowed = false;
	} else {
		// A new process.
		w.ch[0].clear();
		w.ch[1].clear();
		std::vector<std::string> s = x.sent;
		size_t got = x.got;
		w.p[who].reset(new Peer(w, who, 0));
		w.p[who]->sent = s;
		w.p[who]->got = got;
		y.got = s.size();
		if(how == 2)
			w.p[who]->send(1);
	}
	drain(w, "restart");
	MC_CHECK(ex, "reconnect noticed", y.reconnects > 0, " ");
	MC_CHECK(ex, "reconnect noticed", y.reconnects <= 3, "%d times", y.reconnects);
	for(int i = 0; i < 3; i++) {
		w.p[0]->send(1);
		w.p[1]->send(2);
		drain(w, "afterwards");
	}
	ex.step((uint64_t)n);
	ex.obs((uint64_t)(n * 100 + who * 50 + pending * 10 + lose));
}

// Retransmit accounting and the limit of the queue.
void accounting(Explorer& ex)
{
	size_t limit = (size_t)ex.shardChoose(12);
	World w(ex);
	w.p[0].reset(new Peer(w, 0, 0));
	w.p[1].reset(new Peer(w, 1, 0));
	Peer& a = *w.p[0];
	bool connect = ex.flip();
	stored::ArqLayer l(limit);
	int overflow = 0, retransmit = 0;
	l.setEventCallback([&](stored::ArqLayer&, stored::ArqLayer::Event e) {
		overflow += e == stored::ArqLayer::EventEncodeBufferOverflow;
		retransmit += e == stored::ArqLayer::EventRetransmit;
	});
	Down d;
	d.w = &w;
	d.side = 0;
	w.ch[0].clear();
	d.wrap(l);
	size_t queue = 1; // the reset message
	std::deque<size_t> q = {1};
	uint8_t seq = 0;
	if(connect) {
		char f[] = {(char)0x80};
		l.decode(f, 1);
		queue = 0;
		q.clear();
	}
	int tx = connect ? 0 : 1;
	(void)tx;
	bool partial = false;
	for(int i = 0; i < 7; i++) {
		overflow = 0;
		int op = ex.choose(connect ? 5 : 4);
		ex.step();
		if(op < 3) {
			size_t n = (size_t)op * 2;
			l.encode("abcdef", n, true);
			MC_CHECK(ex, "overflow", (limit > 0 && queue + n + 1 > limit) == (overflow > 0), "%zu+%zu+1, limit %zu",
				 queue, n, limit);
			queue += n + 1;
			q.push_back(n + 1);
			ex.trace("encode %zu -> %zu", n, queue);
		} else if(op == 3) {
			l.keepAlive();
			if(q.empty()) {
				q.push_back(1);
				queue = 1;
			}
			ex.trace("keepalive -> %zu", queue);
		} else {
			if(q.empty())
				ex.prune();
			MC_CHECK(ex, "waiting", l.waitingForAck(), " ");
			// Ack what was sent last.
			char f[] = {(char)(0x80 | (w.ch[0].back()[0] & 0x3f))};
			l.decode(f, 1);
			queue -= q.front();
			q.pop_front();
			ex.trace("ack -> %zu", queue);
			MC_CHECK(ex, "retransmits", l.retransmits() == 0, "%zu", l.retransmits());
		}
		MC_CHECK(ex, "waiting", l.waitingForAck() == !q.empty(), " ");
		ex.obs(queue * 10 + (uint64_t)op);
	}
	(void)seq;
	(void)partial;
	(void)a;
	if(q.empty())
		ex.prune();
	// Retransmits are counted, the event is raised at the threshold.
	size_t r = l.retransmits();
	for(int i = 0; i < 20; i++) {
		retransmit = 0;
		size_t frames = w.ch[0].size();
		if(i % 2)
			l.flush();
		else
			l.keepAlive();
		MC_CHECK(ex, "retransmits", l.retransmits() == r + (size_t)i + 1, "%zu", l.retransmits());
		MC_CHECK(ex, "retransmit event",
			 (retransmit > 0) == (l.retransmits() + 1 >= stored::ArqLayer::RetransmitCallbackThreshold), "%zu",
			 l.retransmits());
		MC_CHECK(ex, "retransmit", w.ch[0].size() == frames + 1 && w.ch[0].back() == w.ch[0][frames ? frames - 1 : 0],
			 " ");
	}
	for(int i = 0; i < 300; i++)
		l.keepAlive();
	MC_CHECK(ex, "retransmits", l.retransmits() >= 200, "%zu", l.retransmits());
	l.shrink_to_fit();
}

} // namespace

void mc::setup(bool th)
{
	auto a = [&](char const* n, Cfg c, int shards = 4, bool optOnly = false) {
		if(slow && optOnly)
			return;
		if(slow) {
			c.faults--;
			c.depth--;
		}
		add(n,
		    mc::fmt("depth %d, %d messages per side, %d faults (lose, duplicate, spurious trigger%s), after %d/%d messages, %d "
			    "replies, mtu %zu",
			    c.depth, c.sends, c.faults, c.resets ? ", reset" : "", c.prelude0, c.prelude1, c.replies, c.mtu),
		    shards, [=](Explorer& ex) { run(ex, c); });
	};
	int f = th ? 1 : 0;
	a("from start", Cfg{13 + 3 * f, 2, 2 + f, 0, 0, 0, 0, 0, false}, 6);
	a("from start, pieces", Cfg{9 + 2 * f, 2, 1 + f, 0, 0, 0, 0, 8, true}, 6);
	a("replies", Cfg{13 + 3 * f, 2, 2 + f, 1, 0, 2, 0, 0, false}, 6);
	a("connected", Cfg{12 + 3 * f, 3, 2 + f, 1, 1, 0, 0, 16, false}, 6);
	for(int p : {61, 62, 63, 64})
		a(mc::fmt("wrap %d", p).c_str(), Cfg{8 + 3 * f, 2, 2, p, p, 0, 0, 0, false}, 6, true);
	for(int p : {62, 63})
		a(mc::fmt("wrap %d/1", p).c_str(), Cfg{8 + 3 * f, 2, 2, p, 1, 1, 0, 0, false}, 6, true);
	a("reset, new channel", Cfg{12 + 3 * f, 2, 2 + f, 2, 2, 0, 1, 0, false}, 6);
	a("reset from start, new channel", Cfg{12 + 3 * f, 2, 2 + f, 0, 0, 0, 1, 0, false}, 6);
	a("reset, frames in transit", Cfg{11 + 3 * f, 2, 2 + f, 2, 2, 0, 2, 0, false}, 6);
	a("reset at wrap", Cfg{8 + 3 * f, 2, 2, 63, 62, 0, 1, 0, false}, 6, true);
	add("restart", "all numbers of messages 0..65 before, peer resets or restarts, with lost and pending messages", 6, restart);
	add("accounting", "all sequences of 7 encodes, acks and triggers, queue limits 0..11", 4, accounting);
}

MC_MAIN
