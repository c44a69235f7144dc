// ZeroMQ layers: request/response pairing, message boundaries, misuse.
// mc: property=P30 flavour=asan,opt stores=DbgStore wrap=zmq_bind,zmq_send,zmq_msg_recv,zmq_poll
#include "common/mc.h"
#include "DbgStore.h"
#include <cerrno>
#include <deque>
#include <memory>
#include <stored>
#include <libstored/zmq.h>
#include <zmq.h>

using mc::Explorer;
typedef std::string Msg;

namespace {
// Faults and events during waiting, for the execution at hand.
struct Hooks {
	Explorer* ex = nullptr;
	std::string lastBind; // what was asked for
	std::string endpoint; // what is bound instead
	bool faults = false;
	int recvFault = 0; // errno that was injected
	int sendFaults = 0;
	std::function<bool()> arrive; // something arrives while waiting
	std::vector<long> waits;
} g;

void* g_ctx;
void* ctx()
{
	return g_ctx;
}

// Sockets are closed in the background; do not let these pile up.
void newContext()
{
	static int n = 0;
	if(n++ % 50 == 0) {
		if(g_ctx)
			zmq_ctx_term(g_ctx);
		g_ctx = zmq_ctx_new();
	}
}

std::string endpoint()
{
	static int n = 0;
	return mc::fmt("inproc://e%d", n++);
}
} // namespace

extern "C" {
int __real_zmq_bind(void*, char const*);
int __real_zmq_send(void*, void const*, size_t, int);
int __real_zmq_msg_recv(zmq_msg_t*, void*, int);
int __real_zmq_poll(zmq_pollitem_t*, int, long);

int __wrap_zmq_bind(void* s, char const* e)
{
	g.lastBind = e;
	return __real_zmq_bind(s, strncmp(e, "tcp:", 4) ? e : g.endpoint.c_str());
}
int __wrap_zmq_send(void* s, void const* b, size_t n, int flags)
{
	if(g.faults && (flags & ZMQ_DONTWAIT) && g.ex->dev(2)) {
		g.ex->trace("[send EAGAIN]");
		g.sendFaults++;
		errno = EAGAIN;
		return -1;
	}
	if(!(flags & ZMQ_DONTWAIT)) {
		// Must not block.
		int r = __real_zmq_send(s, b, n, flags | ZMQ_DONTWAIT);
		if(r == -1 && errno == EAGAIN) {
			g.ex->note("blocking", "a send would block indefinitely");
			errno = EAGAIN;
		}
		return r;
	}
	return __real_zmq_send(s, b, n, flags);
}
int __wrap_zmq_msg_recv(zmq_msg_t* m, void* s, int flags)
{
	if(g.faults && (flags & ZMQ_DONTWAIT)) {
		int c = g.ex->dev(3);
		if(c) {
			g.ex->trace("[recv %s]", c == 1 ? "EAGAIN" : "EINTR");
			errno = g.recvFault = c == 1 ? EAGAIN : EINTR;
			return -1;
		}
	}
	if(flags & ZMQ_DONTWAIT)
		return __real_zmq_msg_recv(m, s, flags);
	// Should not block.
	int r = __real_zmq_msg_recv(m, s, ZMQ_DONTWAIT);
	if(r == -1 && errno == EAGAIN && g.arrive && g.arrive()) {
		g.waits.push_back(-1);
		r = __real_zmq_msg_recv(m, s, ZMQ_DONTWAIT);
	}
	return r;
}
int __wrap_zmq_poll(zmq_pollitem_t* i, int n, long t)
{
	int r = __real_zmq_poll(i, n, 0);
	if(r != 0 || t == 0)
		return r;
	g.waits.push_back(t);
	if(g.arrive && g.arrive())
		return __real_zmq_poll(i, n, 0);
	if(t < 0)
		g.ex->note("blocking", "blocked indefinitely");
	return 0;
}
}

namespace {

// Let the socket handle everything that happened.
int events(void* s)
{
	int e = 0;
	size_t n = sizeof(e);
	zmq_getsockopt(s, ZMQ_EVENTS, &e, &n);
	return e;
}

void* raw(int type)
{
	void* s = zmq_socket(ctx(), type);
	int z = 0;
	zmq_setsockopt(s, ZMQ_LINGER, &z, sizeof(z));
	return s;
}

// Close a socket, and wait till this is completely handled by ZeroMQ's thread.
void closed(int fd, std::function<void()> const& settle)
{
	for(int k = 0; fcntl(fd, F_GETFD) != -1; k++) {
		settle();
		if(k > 100)
			usleep(20);
		else
			sched_yield();
		if(k > 200000) {
			g.ex->fail("close", "a closed socket stays");
		}
	}
	settle();
}

int fdOf(void* s)
{
	int fd = -1;
	size_t n = sizeof(fd);
	zmq_getsockopt(s, ZMQ_FD, &fd, &n);
	return fd;
}

void noLinger(void* s)
{
	int z = 0;
	zmq_setsockopt(s, ZMQ_LINGER, &z, sizeof(z));
}

bool get(void* s, Msg& m, int* parts = nullptr)
{
	m.clear();
	int n = 0;
	while(true) {
		zmq_msg_t z;
		zmq_msg_init(&z);
		if(__real_zmq_msg_recv(&z, s, ZMQ_DONTWAIT) == -1) {
			zmq_msg_close(&z);
			return false;
		}
		m.append((char*)zmq_msg_data(&z), zmq_msg_size(&z));
		n++;
		bool more = zmq_msg_more(&z);
		zmq_msg_close(&z);
		if(!more)
			break;
	}
	if(parts)
		*parts = n;
	return true;
}

void put(void* s, std::vector<Msg> const& parts)
{
	for(size_t i = 0; i < parts.size(); i++)
		if(__real_zmq_send(s, parts[i].data(), parts[i].size(), ZMQ_DONTWAIT | (i + 1 < parts.size() ? ZMQ_SNDMORE : 0)) == -1) {
			fprintf(stderr, "client cannot send: %s\n", zmq_strerror(errno));
			abort();
		}
}

class Upper : public stored::ProtocolLayer {
public:
	std::function<void(Msg const&)> on;
	void decode(void* b, size_t n) override
	{
		// The buffer may be modified.
		Msg m((char const*)b, n);
		memset(b, 0x55, n);
		on(m);
	}
};

class Lower : public stored::ProtocolLayer {
public:
	Msg got;
	void encode(void const* b, size_t n, bool last = true) override
	{
		got.append((char const*)b, n);
		if(last)
			got += '|';
	}
	using ProtocolLayer::encode;
};

struct Restore {
	~Restore()
	{
		g = Hooks();
	}
};

///////////////////////////////////////////////////////////////////////////////
// REQ/REP

void rep(Explorer& ex, int depth, int budget)
{
	Restore restore;
	newContext();
	g.ex = &ex;
	g.endpoint = endpoint();
	ex.budget(budget);

	stored::DebugZmqLayer server(ctx(), 19026);
	noLinger(server.socket());
	if(server.lastError() || g.lastBind != "tcp://*:19026")
		ex.fail("bind", mc::fmt("bound to %s, error %d", g.lastBind.c_str(), server.lastError()));

	struct Client {
		void* s = nullptr;
		bool outstanding = false; // according to the REQ protocol
		bool pending = false;	  // not yet received by the server
		Msg req;
		bool replied = false;
		Msg reply;
		int n = 0;
		~Client()
		{
			if(s)
				zmq_close(s);
		}
		void open()
		{
			s = raw(ZMQ_REQ);
			if(zmq_connect(s, g.endpoint.c_str()))
				abort();
		}
	};
	Client c[2];
	c[0].open();
	c[1].open();
	int replying = -1; // client that is being replied to
	Msg parts;
	int decoded = 0;
	int behaviour = 0;

	auto settle = [&] {
		events(server.socket());
		for(auto& x : c)
			if(x.s)
				events(x.s);
	};
	auto finish = [&](Msg const& m) {
		c[replying].replied = true;
		c[replying].reply = m;
		replying = -1;
		parts.clear();
	};
	auto encode = [&](Msg const& m, bool last) {
		g.faults = budget && replying >= 0;
		server.encode(m.data(), m.size(), last);
		g.faults = false;
		ex.trace("encode(%s%s) error %d", m.c_str(), last ? "" : "+", server.lastError());
		if(replying < 0) {
			if(server.lastError() != EFSM)
				ex.note("misuse", mc::fmt("sending while there is no request gives error %d", server.lastError()));
		} else {
			if(server.lastError())
				ex.note("send", mc::fmt("sending a response gives error %d", server.lastError()));
			parts += m;
			if(last)
				finish(parts);
		}
	};
	Upper up;
	up.on = [&](Msg const& m) {
		g.faults = false;
		ex.trace("decode(%s)", mc::esc(m).c_str());
		decoded++;
		int from = -1;
		for(int i = 0; i < 2; i++)
			if(c[i].pending && c[i].req == m)
				from = i;
		if(replying >= 0 || from < 0) {
			ex.note("request", "the server got " + mc::esc(m) + ", which is not a pending request");
			return;
		}
		c[from].pending = false;
		replying = from;
		Msg r = "r" + m;
		switch(behaviour) {
		case 0:
			encode(r, true);
			break;
		case 1:
			encode("r", false);
			encode(m, true);
			break;
		case 2:
			encode(r, true);
			encode("again", true);
			break;
		case 3: // no response
			break;
		case 4:
			encode("part", false);
			break;
		case 5:
			encode("", true);
			break;
		}
		g.faults = budget && replying < 0;
	};
	server.wrap(up);

	auto send = [&](int i, int kind) {
		Client& x = c[i];
		Msg id = mc::fmt("%c%d", 'a' + i, x.n++);
		std::vector<Msg> p;
		switch(kind) {
		case 0:
			p = {id};
			break;
		case 1:
			p = {id.substr(0, 1), id.substr(1)};
			break;
		case 2:
			p = {"", id, ""};
			break;
		case 3:
			if(i) {
				id.insert(0, 200, 'x');
				p = {id};
			} else {
				id.clear();
				p = {""};
			}
			break;
		}
		put(x.s, p);
		x.req = id;
		x.pending = x.outstanding = true;
		ex.trace("client %d: %s in %d", i, mc::esc(id, 5).c_str(), (int)p.size());
	};

	for(int d = 0; d < depth; d++) {
		int op = d ? ex.choose(6) : ex.shardChoose(6);
		switch(op) {
		case 0:
		case 1:
			if(c[op].outstanding)
				ex.prune();
			send(op, ex.choose(4));
			break;
		case 2: {
			behaviour = ex.choose(6);
			static long const ts[] = {0, 5000, -1};
			long t = ts[ex.choose(3)];
			bool was = replying >= 0;
			bool any = c[0].pending || c[1].pending;
			// When waiting, something may arrive.
			int free = !c[0].outstanding ? 0 : !c[1].outstanding ? 1 : -1;
			if(t && !was && !any && free < 0)
				ex.prune(); // Would block indefinitely.
			bool arrival = t && !was && (t < 0 || !any) && free >= 0 ? t < 0 || ex.flip() : false;
			if(arrival && any && !budget)
				arrival = false; // nothing to wait for
			bool arrived = false;
			g.arrive = [&]() -> bool {
				if(!arrival || arrived)
					return false;
				arrived = true;
				send(free, 1);
				return true;
			};
			decoded = 0;
			g.recvFault = 0;
			g.waits.clear();
			ex.trace("recv(%ld) behaviour %d", t, behaviour);
			g.faults = budget && !was;
			int res = server.recv(t);
			g.faults = false;
			g.arrive = nullptr;
			ex.trace("-> %d", res);
			for(long w : g.waits)
				if(t >= 0 && (w < 0 || w > (t + 999) / 1000))
					ex.fail("timeout", mc::fmt("waits %ld ms instead of %ld us", w, t));
			int exp;
			if(replying >= 0) {
				exp = EFSM;
				if(server.lastError())
					ex.fail("recover", mc::fmt("the error response gives error %d", server.lastError()));
				finish(parts + "?");
			} else if(g.recvFault) {
				// Later, then. Unless it was waited for.
				exp = (decoded || res == 0) && g.recvFault == EAGAIN ? 0 : g.recvFault;
			} else {
				exp = decoded ? 0 : EAGAIN;
				if(c[0].pending || c[1].pending)
					ex.fail("request", "a pending request is not handled");
			}
			if(t < 0 && !was && !g.recvFault && !decoded)
				ex.fail("blocking", "returned without a request");
			if(res != exp && !(g.recvFault && (c[0].pending || c[1].pending) && res == EAGAIN))
				ex.fail("result", mc::fmt("recv() gives %d, expected %d", res, exp));
			break;
		}
		case 3:
			encode("late", true);
			break;
		case 4:
			encode("p", false);
			break;
		case 5: {
			// The client disconnects, and a new one comes.
			Client& x = c[0];
			if(c[0].pending || c[1].pending || replying >= 0)
				ex.prune(); // See gone().
			ex.trace("client 0 restarts");
			int fd = fdOf(x.s);
			zmq_close(x.s);
			x.s = nullptr;
			closed(fd, settle);
			x.open();
			x.outstanding = x.replied = false;
			break;
		}
		}
		if(ex.failed())
			ex.fail("callback", "");
		settle();
		for(int i = 0; i < 2; i++) {
			Msg m;
			bool r = get(c[i].s, m);
			if(r != c[i].replied)
				ex.fail("response", mc::fmt("client %d %s a response %s", i, r ? "got" : "did not get",
							    mc::esc(r ? m : c[i].reply).c_str()));
			if(r) {
				if(m != c[i].reply)
					ex.fail("response", mc::fmt("client %d got %s, expected %s", i, mc::esc(m).c_str(),
								    mc::esc(c[i].reply).c_str()));
				c[i].replied = c[i].outstanding = false;
				ex.obs(m);
			}
		}
	}
	// It must work now.
	ex.budget(0);
	behaviour = 0;
	for(int i = 0; i < 3; i++) {
		server.recv();
		settle();
		for(auto& x : c) {
			Msg m;
			if(get(x.s, m))
				x.outstanding = x.replied = false;
		}
	}
	for(int i = 0; i < 2; i++)
		if(c[i].outstanding)
			ex.fail("response", mc::fmt("client %d never got a response", i));
	for(int i = 0; i < 2; i++) {
		send(i, 1);
		int res = server.recv();
		Msg m;
		settle();
		if(res || !get(c[i].s, m) || m != "r" + c[i].req)
			ex.fail("recover", mc::fmt("a normal request fails afterwards (result %d, response %s)", res, mc::esc(m).c_str()));
	}
}

// The client goes away before the response. Another one must not notice.
void gone(Explorer& ex)
{
	Restore restore;
	newContext();
	g.ex = &ex;
	g.endpoint = endpoint();
	stored::DebugZmqLayer server(ctx(), 19026);
	noLinger(server.socket());
	struct Client {
		void* s = raw(ZMQ_REQ);
		Client()
		{
			zmq_connect(s, g.endpoint.c_str());
		}
		~Client()
		{
			zmq_close(s);
		}
	};
	Upper up;
	int behaviour = ex.choose(3);
	int gets = 0;
	up.on = [&](Msg const& m) {
		gets++;
		if(m == "b")
			server.encode("rb", 2);
		else if(behaviour == 1)
			server.encode("p", 1, false);
		else if(behaviour == 2)
			server.encode("ra", 2);
	};
	server.wrap(up);
	int when = ex.choose(3);
	ex.trace("behaviour %d, close at %d", behaviour, when);
	std::unique_ptr<Client> a(new Client), b(new Client);
	auto close = [&](int w) {
		if(w == when) {
			a.reset();
			usleep(1000);
			events(server.socket());
		}
	};
	put(a->s, {"a"});
	close(0);
	bool early = ex.flip();
	if(early)
		put(b->s, {"b"});
	int res = server.recv(0);
	ex.trace("recv %d, %d requests", res, gets);
	close(1);
	bool late = ex.flip();
	if(late && behaviour != 2)
		server.encode("late", 4);
	close(2);
	if(!early)
		put(b->s, {"b"});
	Msg m;
	bool got = false;
	for(int i = 0; !got && i < 10000; i++) {
		res = server.recv(0);
		events(b->s);
		got = get(b->s, m);
		if(!got)
			usleep(100);
	}
	if(!got || m != "rb")
		ex.fail("response", "another client did not get its response, but " + mc::esc(m));
	ex.obs((uint64_t)gets);
}

///////////////////////////////////////////////////////////////////////////////
// Synchronizer connection

void sync(Explorer& ex, int depth, int budget)
{
	Restore restore;
	newContext();
	g.ex = &ex;
	ex.budget(budget);
	std::string ep = endpoint();
	struct Side {
		std::unique_ptr<stored::SyncZmqLayer> l;
		Upper up;
		Lower low;
		std::deque<Msg> out; // to be received by the other side
		Msg cur;
		bool partial = false; // in the middle of sending a message
		bool lost = false;    // ...which will not arrive
		int n = 0;
	};
	Side s[2];
	auto open = [&](int i) {
		s[i].l.reset(new stored::SyncZmqLayer(ctx(), ep.c_str(), i == 0));
		noLinger(s[i].l->socket());
		if(s[i].l->lastError())
			ex.fail("open", mc::fmt("open gives error %d", s[i].l->lastError()));
		s[i].l->wrap(s[i].up);
	};
	for(int i = 0; i < 2; i++) {
		Side& o = s[1 - i];
		s[i].up.on = [&ex, &o](Msg const& m) {
			bool f = g.faults;
			g.faults = false;
			ex.trace("got %s", mc::esc(m).c_str());
			ex.obs(m);
			if(o.out.empty() || o.out.front() != m)
				ex.note("message", mc::fmt("got %s, expected %s", mc::esc(m).c_str(),
							   o.out.empty() ? "nothing" : mc::esc(o.out.front()).c_str()));
			else
				o.out.pop_front();
			g.faults = f;
		};
	}
	open(0);
	bool connected = ex.shardChoose(2) == 0;
	if(connected)
		open(1);
	auto settle = [&] {
		for(auto& x : s)
			if(x.l)
				events(x.l->socket());
	};
	settle();
	for(int d = 0; d < depth; d++) {
		switch(ex.choose(5)) {
		case 0:
		case 1: {
			// Encode
			int i = ex.choose(2);
			Side& x = s[i];
			if(!x.l)
				ex.prune();
			Msg const ms[] = {mc::fmt("%c%d", 'A' + i, x.n), "", mc::fmt("%0150d", x.n)};
			Msg m = ms[ex.choose(3)];
			x.n++;
			bool last = ex.flip();
			g.faults = budget && connected;
			g.sendFaults = 0;
			x.l->encode(m.data(), m.size(), last);
			g.faults = false;
			int err = x.l->lastError();
			ex.trace("%d: encode(%s%s) error %d", i, mc::esc(m, 6).c_str(), last ? "" : "+", err);
			if(!connected)
				x.lost = true;
			if(!x.lost) {
				x.cur += m;
				if(err)
					ex.fail("send", mc::fmt("sending gives error %d", err));
			} else if(!x.partial && err != EAGAIN)
				ex.fail("send", mc::fmt("sending without peer gives error %d", err));
			x.partial = !last;
			if(last) {
				if(!x.lost)
					x.out.push_back(x.cur);
				x.cur.clear();
				x.lost = false;
			}
			break;
		}
		case 2:
		case 3: {
			int i = ex.choose(2);
			Side& x = s[i];
			if(!x.l)
				ex.prune();
			bool any = !s[1 - i].out.empty();
			ex.trace("%d: recv", i);
			g.recvFault = 0;
			g.faults = budget > 0;
			int res = x.l->recv();
			g.faults = false;
			if(g.recvFault) {
				if(res && res != g.recvFault)
					ex.fail("result", mc::fmt("recv() gives %d", res));
			} else {
				if(res != (any ? 0 : EAGAIN))
					ex.fail("result", mc::fmt("recv() gives %d", res));
				if(!s[1 - i].out.empty() && !ex.failed())
					ex.fail("message", "a message is not received");
			}
			break;
		}
		case 4:
			if(connected) {
				// The connecting side disappears, together with everything on its way.
				ex.trace("1: close");
				int fd = s[1].l->fd();
				if(fd != fdOf(s[1].l->socket()))
					ex.fail("fd", "wrong file descriptor");
				s[1].l.reset();
				auto on = s[0].up.on;
				s[0].up.on = [](Msg const&) {};
				closed(fd, [&] {
					settle();
					while(s[0].l->recv() == 0)
						;
				});
				s[0].up.on = on;
				for(auto& x : s) {
					x.out.clear();
					x.cur.clear();
					if(x.partial)
						x.lost = true;
				}
				s[1].partial = s[1].lost = false;
				g.faults = false;
				connected = false;
			} else {
				ex.trace("1: open");
				open(1);
				connected = true;
			}
			break;
		}
		if(ex.failed())
			ex.fail("callback", "");
		settle();
	}
	if(!connected) {
		open(1);
		settle();
	}
	// Finally, complete and receive everything.
	ex.budget(0);
	for(int i = 0; i < 2; i++) {
		Side& x = s[i];
		if(x.partial) {
			x.l->encode("end", 3, true);
			if(!x.lost)
				x.out.push_back(x.cur + "end");
		}
		x.l->encode("!", 1, true);
		if(x.l->lastError())
			ex.fail("send", mc::fmt("sending gives error %d, finally", x.l->lastError()));
		x.out.push_back("!");
		settle();
		s[1 - i].l->recv();
		s[1 - i].l->recv();
		if(ex.failed())
			ex.fail("callback", "");
		if(!x.out.empty())
			ex.fail("message", mc::fmt("%s is not received", mc::esc(x.out.front()).c_str()));
	}
}

///////////////////////////////////////////////////////////////////////////////
// A debugger, with and without ZeroMQ.

class Store : public STORE_T(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase) {
	STORE_CLASS(Store, stored::DbgStoreDefaultFunctions, stored::DbgStoreBase)
public:
	Store() is_default
	int32_t fn = 3;
	void __fn(bool set, int32_t& v)
	{
		if(set)
			fn = v;
		else
			v = fn;
	}
};

void debugger(Explorer& ex, int depth)
{
	Restore restore;
	newContext();
	g.ex = &ex;
	g.endpoint = endpoint();
	Store s1, s2;
	stored::Debugger d1("dbg"), d2("dbg");
	d1.map(s1);
	d2.map(s2);
	stored::DebugZmqLayer server(ctx(), 1234);
	noLinger(server.socket());
	if(g.lastBind != "tcp://*:1234")
		ex.fail("bind", "bound to " + g.lastBind);
	server.wrap(d1);
	Lower direct;
	direct.wrap(d2);
	struct Sock {
		void* s;
		~Sock()
		{
			zmq_close(s);
		}
	} c{raw(ZMQ_REQ)};
	zmq_connect(c.s, g.endpoint.c_str());
	static std::vector<Msg> const reqs = {"?",	"l",	 "r/a",	   "w12/a",  "r/fn",	"w77/fn", "i",	  "v",	 "r/nothing",
					      "aq/b",	"rq",	 "m!|?|!r/a", "mM|r/a|r/b", "M",     "t",	  "s",	 "",	"R0 1",
					      "e" + Msg(300, 'x'), "w0/c",  "r/s",   "l\n",	Msg("\0a", 2)};
	for(int i = 0; i < depth; i++) {
		Msg req = reqs[(size_t)(i ? ex.choose((int)reqs.size()) : ex.shardChoose((int)reqs.size()))];
		std::vector<Msg> p;
		switch(ex.choose(3)) {
		case 0:
			p = {req};
			break;
		case 1:
			p = {req.substr(0, req.size() / 2), req.substr(req.size() / 2)};
			break;
		case 2:
			p = {"", req, ""};
			break;
		}
		put(c.s, p);
		int res = server.recv();
		events(c.s);
		Msg m, r = req;
		direct.got.clear();
		d2.decode(&r[0], r.size());
		ex.trace("%s in %d", mc::esc(req, 20).c_str(), (int)p.size());
		if(direct.got.empty())
			direct.got = "?|"; // There has to be some response.
		else if(res)
			ex.fail("result", mc::fmt("recv gives %d", res));
		if(!get(c.s, m))
			ex.fail("response", "no response");
		if(m + "|" != direct.got)
			ex.fail("response", mc::fmt("response is %s, expected %s", mc::esc(m).c_str(), mc::esc(direct.got).c_str()));
		ex.obs(m);
	}
}

} // namespace

void mc::setup(bool thorough)
{
	int x = thorough && !mc::slow ? 1 : 0;
	int d = mc::slow ? 3 : 4;
	mc::add("rep", mc::fmt("REQ/REP: all sequences of %d operations, 2 clients, 6 behaviours of the server", d + x), 6,
		[=](Explorer& ex) { rep(ex, d + x, 0); });
	mc::add("rep-faults", mc::fmt("REQ/REP: all sequences of %d operations, 2 clients, 2 injected faults", 3 + x), 6,
		[=](Explorer& ex) { rep(ex, 3 + x, 2); });
	mc::add("gone", "REQ/REP: a client disappears before, while, or after its request is handled", 1, gone);
	mc::add("sync", mc::fmt("DEALER: all sequences of %d operations", d + x), 2, [=](Explorer& ex) { sync(ex, d + x, 0); });
	mc::add("sync-faults", mc::fmt("DEALER: all sequences of %d operations, 2 injected faults", 3 + x), 2,
		[=](Explorer& ex) { sync(ex, 3 + x, 2); });
	int dd = mc::slow ? 2 : 3;
	mc::add("debugger", mc::fmt("all sequences of %d requests, compared to a debugger without ZeroMQ", dd + x), 23,
		[=](Explorer& ex) { debugger(ex, dd + x); });
}

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
