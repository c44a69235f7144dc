// All poller implementations, against a set of registered items.
// mc: property=P23 flavour=asan,opt wrap=poll,zmq_poll flags=-DSTORED_NO_DEPRECATED=1
#define STORED_NO_DEPRECATED
#include "common/mc.h"
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <stored>
#include <libstored/poller.h>
#include <sys/socket.h>
#include <unistd.h>
#include <zmq.h>

using mc::Explorer;
using stored::Pollable;

namespace {
Explorer* g_ex; // inject faults when set
int g_fault;	// injected errno
int g_extraEvents;

int const In = (int)Pollable::PollIn;
int const Out = (int)Pollable::PollOut;
int const Err = (int)Pollable::PollErr;
int const Pri = (int)Pollable::PollPri;
int const Hup = (int)Pollable::PollHup;

bool fault()
{
	g_fault = 0;
	if(!g_ex)
		return false;
	int c = g_ex->dev(3);
	if(!c)
		return false;
	g_fault = c == 1 ? EINTR : ENOMEM;
	errno = g_fault;
	return true;
}
} // namespace

extern "C" {
int __real_poll(struct pollfd*, nfds_t, int);
int __real_zmq_poll(zmq_pollitem_t*, int, long);
int __wrap_poll(struct pollfd* f, nfds_t n, int t)
{
	return fault() ? -1 : __real_poll(f, n, t);
}
int __wrap_zmq_poll(zmq_pollitem_t* i, int n, long t)
{
	return fault() ? -1 : __real_zmq_poll(i, n, t);
}
}

namespace {

// Real things to poll. Every one can be (un)ready for In, and for Out.
struct Things {
	// 0: read end of a pipe. 1: write end of another pipe. 2: end of a socket pair.
	int p0[2], p1[2], s[2];
	bool in0 = false, out1 = true, in2 = false, out2 = true;

	static void nb(int fd)
	{
		fcntl(fd, F_SETFL, O_NONBLOCK);
	}
	Things()
	{
		if(pipe(p0) || pipe(p1) || socketpair(AF_UNIX, SOCK_STREAM, 0, s))
			abort();
		for(int fd : {p0[0], p0[1], p1[0], p1[1], s[0], s[1]})
			nb(fd);
		fcntl(p1[1], F_SETPIPE_SZ, 4096);
		int sz = 1024;
		setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		setsockopt(s[1], SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz));
	}
	~Things()
	{
		for(int fd : {p0[0], p0[1], p1[0], p1[1], s[0], s[1]})
			close(fd);
	}
	static void drain(int fd)
	{
		char b[8192];
		while(read(fd, b, sizeof(b)) > 0)
			;
	}
	static void fill(int fd)
	{
		static char b[4096];
		while(write(fd, b, sizeof(b)) > 0)
			;
		while(write(fd, b, 1) > 0)
			;
	}
	int fd(int i) const
	{
		return i == 0 ? p0[0] : i == 1 ? p1[1] : s[0];
	}
	// What it is ready for
	int ready(int i) const
	{
		switch(i) {
		case 0:
			return in0 ? In : 0;
		case 1:
			return out1 ? Out : 0;
		default:
			return (in2 ? In : 0) | (out2 ? Out : 0);
		}
	}
	static int toggles()
	{
		return 4;
	}
	void toggle(int t)
	{
		switch(t) {
		case 0:
			if((in0 = !in0))
				(void)!write(p0[1], "x", 1);
			else
				drain(p0[0]);
			break;
		case 1:
			if((out1 = !out1))
				drain(p1[0]);
			else
				fill(p1[1]);
			break;
		case 2:
			if((in2 = !in2))
				(void)!write(s[1], "x", 1);
			else
				drain(s[0]);
			break;
		case 3:
			if((out2 = !out2))
				drain(s[1]);
			else
				fill(s[0]);
			break;
		}
	}
	void reset()
	{
		if(in0)
			toggle(0);
		if(!out1)
			toggle(1);
		if(in2)
			toggle(2);
		if(!out2)
			toggle(3);
	}
};

Things& things()
{
	static Things* t = nullptr;
	static pid_t pid = 0;
	if(!t || pid != getpid()) {
		t = new Things;
		pid = getpid();
	}
	t->reset();
	return *t;
}

struct Reg {
	int events;
	Pollable* p;
};

// An unsupported thing.
class Odd final : public stored::TypedPollable {
	STORED_POLLABLE_TYPE(Odd)
public:
	Odd()
		: TypedPollable(Pollable::PollIn)
	{}
};

std::string show(std::map<int, int> const& m)
{
	std::string s;
	for(auto const& x : m)
		s += mc::fmt("%d:%x ", x.first, x.second);
	return s;
}

// New interface, on file descriptors.
template <typename Impl>
void fds(Explorer& ex, int depth, int budget)
{
	Things& th = things();
	struct Layer : stored::FileLayer {
		Layer(int fd)
			: stored::FileLayer(dup(fd))
		{}
	};
	g_ex = nullptr;
	std::unique_ptr<stored::CustomPoller<Impl>> poller(new stored::CustomPoller<Impl>());
	static int const evs[] = {In, Out, In | Out};
	std::vector<std::unique_ptr<stored::TypedPollable>> pool;
	std::vector<int> reg; // index in pool
	struct Info {
		int thing, events, user;
	};
	std::vector<Info> info;
	Odd odd;
	ex.budget(budget);
	int user = 0;
	std::vector<std::unique_ptr<Layer>> layers;

	for(int d = 0; d < depth; d++) {
		// Number of alternatives: add: thing x events, remove each of reg, toggles, poll, clear, remove
		// something that is not there, list
		int nadd = 3 * 3;
		int nrem = (int)reg.size() + 1;
		int n = nadd + nrem + Things::toggles() + 1 + 1 + 3;
		int c = d == 0 ? ex.shardChoose(n) : ex.choose(n);
		ex.step();
		if(c < nadd) {
			int t = c / 3, e = evs[c % 3];
			// Once per thing
			bool have = false;
			for(int r : reg)
				if(info[(size_t)r].thing == t)
					have = true;
			if(have)
				ex.prune();
			if(c % 3 == 2 && t == 2 && std::is_base_of<stored::PolledFileLayer, Layer>::value) {
				layers.emplace_back(new Layer(th.fd(t)));
				pool.emplace_back(new stored::PollableFileLayer(*layers.back(), (unsigned long)e,
					(void*)(intptr_t)++user));
			} else
				pool.emplace_back(
					new stored::PollableFd(th.fd(t), (unsigned long)e, (void*)(intptr_t)++user));
			info.push_back({t, e, user});
			ex.trace("add %d events %x", t, e);
			int res = poller->add(*pool.back());
			if(res)
				ex.fail("add", mc::fmt("add returned %d", res));
			reg.push_back((int)pool.size() - 1);
			continue;
		}
		c -= nadd;
		if(c < nrem) {
			if(c < (int)reg.size()) {
				ex.trace("remove %d", info[(size_t)reg[(size_t)c]].thing);
				int res = poller->remove(*pool[(size_t)reg[(size_t)c]]);
				if(res)
					ex.fail("remove", mc::fmt("remove returned %d", res));
				reg.erase(reg.begin() + c);
			} else {
				ex.trace("remove unknown");
				int res = poller->remove(odd);
				if(res != ESRCH)
					ex.fail("remove", mc::fmt("remove of unknown returned %d", res));
			}
			continue;
		}
		c -= nrem;
		if(c < Things::toggles()) {
			ex.trace("toggle %d", c);
			th.toggle(c);
			continue;
		}
		c -= Things::toggles();
		if(c == 0) {
			g_ex = &ex;
			auto const& res = poller->poll(0);
			int err = errno;
			g_ex = nullptr;
			std::map<int, int> exp, got;
			for(int r : reg) {
				int e = th.ready(info[(size_t)r].thing) & info[(size_t)r].events;
				if(e && !g_fault)
					exp[r] = e;
			}
			for(auto& x : res) {
				int ix = -1;
				Pollable* p = &*x;
				for(size_t i = 0; i < pool.size(); i++)
					if(pool[i].get() == p)
						ix = (int)i;
				if(ix < 0 || got.count(ix))
					ex.fail("result", "unknown item or duplicate");
				got[ix] = (int)x->revents.to_ulong();
				if((intptr_t)x->user_data != info[(size_t)ix].user
				   || (int)x->events.to_ulong() != info[(size_t)ix].events)
					ex.fail("user_data", "wrong user data or events");
			}
			ex.trace("poll -> %s (%d)", show(got).c_str(), err);
			if(got != exp)
				ex.fail("result",
					mc::fmt("poll gave %s, expected %s", show(got).c_str(), show(exp).c_str()));
			int expErr = g_fault ? g_fault : exp.empty() ? EAGAIN : 0;
			if(err != expErr)
				ex.fail("errno", mc::fmt("errno %d, expected %d", err, expErr));
			if(!g_fault)
				for(int r : reg) {
					int e = th.ready(info[(size_t)r].thing) & info[(size_t)r].events;
					int rev = (int)pool[(size_t)r]->revents.to_ulong();
					if(rev != e)
						ex.fail("revents",
							mc::fmt("revents of item %d is %x, expected %x", r, rev, e));
				}
			ex.obs(show(got));
			g_fault = 0;
			continue;
		}
		c--;
		if(c == 0) {
			ex.trace("clear");
			poller->clear();
			reg.clear();
			if(!poller->empty())
				ex.fail("clear", "not empty");
			continue;
		}
		c--;
		if(c == 0) {
			ex.trace("add unsupported");
			int res = poller->add(odd);
			if(res != EINVAL)
				ex.fail("add", mc::fmt("adding unsupported gave %d", res));
			continue;
		}
		// Lists: of two, or two and an unsupported one (nothing is added)
		{
			for(int r : reg)
				if(info[(size_t)r].thing != 1)
					ex.prune();
			pool.emplace_back(new stored::PollableFd(th.fd(0), (unsigned long)In, (void*)(intptr_t)++user));
			info.push_back({0, In, user});
			pool.emplace_back(
				new stored::PollableFd(th.fd(2), (unsigned long)(In | Out), (void*)(intptr_t)++user));
			info.push_back({2, In | Out, user});
			Pollable &a = *pool[pool.size() - 2], &b = *pool.back();
			ex.trace("add list%s", c == 1 ? "" : " with unsupported");
			int res = c == 1 ? poller->add({a, b}) : poller->add({a, b, odd});
			if(c == 1) {
				if(res)
					ex.fail("add", "adding list failed");
				reg.push_back((int)pool.size() - 2);
				reg.push_back((int)pool.size() - 1);
			} else if(!res)
				ex.fail("add", "adding list with unsupported item succeeded");
		}
	}
	poller.reset();
}

// Closing the other end gives an event, even when not asked for.
template <typename Impl>
void hup(Explorer& ex)
{
	g_ex = nullptr;
	int which = ex.choose(3);
	static int const evs[] = {In, Out, In | Out, In | Pri | Hup};
	int e = evs[ex.choose(4)];
	bool before = ex.flip();
	int p[2];
	if(which == 2 ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p))
		abort();
	int fd = which == 1 ? p[1] : p[0], other = which == 1 ? p[0] : p[1];
	ex.trace("kind %d events %x %s", which, e, before ? "before" : "after");
	{
		stored::PollableFd a(fd, (unsigned long)e, nullptr);
		stored::CustomPoller<Impl> poller;
		if(before)
			close(other);
		poller.add(a);
		if(!before) {
			auto const& res = poller.poll(0);
			int ready = (which == 1 || which == 2) ? Out & e : 0;
			if((res.empty() ? 0 : (int)res[0]->revents.to_ulong()) != ready)
				ex.fail("result", "wrong events");
			close(other);
		}
		struct pollfd f = {fd,
			(short)((e & In ? POLLIN : 0) | (e & Out ? POLLOUT : 0) | (e & Pri ? POLLPRI : 0)
				| (e & Hup ? POLLHUP : 0)),
			0};
		__real_poll(&f, 1, 0);
		auto const& res = poller.poll(0);
		int err = errno;
		bool got = !res.empty();
		int rev = got ? (int)res[0]->revents.to_ulong() : 0;
		ex.obs((uint64_t)rev);
		// A dead pipe must wake up the poller
		if(f.revents && (!got || !rev || err))
			ex.fail("hup", mc::fmt("no event after closing the other end (poll gives %x)", f.revents));
		if((f.revents & POLLIN) && !(rev & In))
			ex.fail("hup", "PollIn expected");
		if(rev & ~(e | Err | Hup))
			ex.fail("hup", mc::fmt("unexpected events %x", rev));
		poller.clear();
	}
	close(fd);
	if(!before || true)
		;
}

// Callbacks, with a loop. Also a scripted poll_once().
int g_script[3];	 // result of poll_once(); -1 is revents In, -2 is none
int g_calls;
stored::Pollable::Events cbEvents[3];
bool cbThrow[3];

void loop(Explorer& ex, int depth)
{
	g_ex = nullptr;
	for(int i = 0; i < 3; i++) {
		g_script[i] = -2;
		cbEvents[i] = 0;
		cbThrow[i] = false;
	}
	struct Cb {
		int i;
		Pollable::Events operator()(Pollable const&) const
		{
			if(cbThrow[i])
				throw 1;
			return cbEvents[i];
		}
	};
	auto a = stored::pollable(Cb{0}, Pollable::PollIn, (void*)1);
	auto b = stored::pollable(Cb{1}, Pollable::PollIn | Pollable::PollOut, (void*)2);
	stored::PollableFd s(100, Pollable::PollIn, (void*)3);
	stored::TypedPollable* ps[] = {&a, &b, &s};
	std::vector<int> reg;
	stored::CustomPoller<stored::LoopPoller> poller;
	for(int d = 0; d < depth; d++) {
		int c = d == 0 ? ex.shardChoose(3 + 6 + 4 + 2) : ex.choose(3 + 6 + 4 + 2);
		ex.step();
		if(c < 3) {
			auto it = std::find(reg.begin(), reg.end(), c);
			ex.trace("%s %d", it == reg.end() ? "add" : "remove", c);
			if(it == reg.end()) {
				if(poller.add(*ps[c]))
					ex.fail("add", "failed");
				reg.push_back(c);
			} else {
				if(poller.remove(*ps[c]))
					ex.fail("remove", "failed");
				reg.erase(it);
			}
			continue;
		}
		c -= 3;
		if(c < 6) {
			static unsigned long const e[] = {0, (unsigned long)In, (unsigned long)(In | Out)};
			ex.trace("callback %d: %lx", c / 3, e[c % 3]);
			cbEvents[c / 3] = e[c % 3];
			cbThrow[c / 3] = false;
			continue;
		}
		c -= 6;
		if(c < 4) {
			static int const r[] = {-2, -1, EAGAIN, EIO};
			ex.trace("script %d", r[c]);
			g_script[2] = r[c];
			continue;
		}
		c -= 4;
		if(c == 0) {
			ex.trace("callback 1 throws");
			cbThrow[1] = true;
			continue;
		}
		// poll
		std::map<int, int> exp, got;
		int experr = 0;
		for(int r : reg) {
			int e = 0;
			if(r < 2)
				e = cbThrow[r] ? Err : (int)cbEvents[r].to_ulong();
			else if(g_script[2] == -1)
				e = In;
			else if(g_script[2] == EIO)
				experr = EIO;
			if(e)
				exp[r] = e;
		}
		auto all = exp;
		if(experr)
			exp.clear();
		else if(exp.empty())
			experr = EAGAIN;
		auto const& res = poller.poll(0);
		int err = errno;
		for(auto& x : res) {
			int ix = -1;
			for(int i = 0; i < 3; i++)
				if((Pollable*)ps[i] == &*x)
					ix = i;
			if(ix < 0 || got.count(ix))
				ex.fail("result", "unknown item or duplicate");
			got[ix] = (int)x->revents.to_ulong();
		}
		ex.trace("poll -> %s (%d)", show(got).c_str(), err);
		if(got != exp || err != experr)
			ex.fail("result", mc::fmt("poll gave %s (%d), expected %s (%d)", show(got).c_str(), err,
						  show(exp).c_str(), experr));
		if(experr != EIO)
			for(int r : reg)
				if((int)ps[r]->revents.to_ulong() != (exp.count(r) ? exp[r] : 0))
					ex.fail("revents", mc::fmt("revents of item %d is %lx, expected %x", r,
								   ps[r]->revents.to_ulong(), exp.count(r) ? exp[r] : 0));
		ex.obs(show(got));
	}
	poller.clear();
}

// The old interface, including ZeroMQ.
struct Zmq {
	void *ctx, *a, *b;
	bool in = false;
	std::unique_ptr<stored::DebugZmqLayer> layer;
	void* req;
	bool lin = false;
	Zmq()
	{
		ctx = zmq_ctx_new();
		a = zmq_socket(ctx, ZMQ_PAIR);
		b = zmq_socket(ctx, ZMQ_PAIR);
		if(zmq_bind(a, "inproc://a") || zmq_connect(b, "inproc://a"))
			abort();
	}
	void reset()
	{
		if(in)
			toggle();
	}
	void toggle()
	{
		if((in = !in))
			zmq_send(b, "x", 1, 0);
		else {
			char c[4];
			zmq_recv(a, c, 4, ZMQ_DONTWAIT);
		}
	}
};

void old(Explorer& ex, int depth, bool zmq)
{
#ifdef STORED_POLL_OLD
	Things& th = things();
	static Zmq* z = nullptr;
	static pid_t pid = 0;
	if(!z || pid != getpid()) {
		z = new Zmq;
		pid = getpid();
	}
	z->reset();
	g_ex = nullptr;
	static std::unique_ptr<stored::FileLayer> fl;
	static pid_t flpid = 0;
	if(!fl || flpid != getpid()) {
		(void)fl.release();
		fl.reset(new stored::FileLayer(dup(th.fd(2))));
		flpid = getpid();
	}
	// Items: 0: fd, 1: zmq socket or fd 1, 2: file layer
	struct R {
		int events;
		int user;
	};
	std::map<int, R> reg;
	std::unique_ptr<stored::Poller> poller(new stored::Poller());
	auto ready = [&](int i) { return i == 1 && zmq ? (z->in ? In : 0) | Out : th.ready(i); };
	auto toggle = [&](int t) {
		if(t == 1 && zmq)
			z->toggle();
		else
			th.toggle(t);
	};
	static int const evs[] = {In, In | Out};
	int user = 10;
	for(int d = 0; d < depth; d++) {
		int n = 3 * 2 + 3 * 2 + 3 + 3 + 2;
		int c = d == 0 ? ex.shardChoose(n) : ex.choose(n);
		ex.step();
		if(c < 6) {
			int i = c / 2, e = evs[c % 2];
			if(reg.count(i))
				ex.prune();
			++user;
			ex.trace("add %d %x", i, e);
			int res = i == 0 ? poller->add(th.fd(0), (void*)(intptr_t)user, (unsigned long)e)
				: i == 1 ? (zmq ? poller->add(z->a, (void*)(intptr_t)user, (unsigned long)e)
						: poller->add(th.fd(1), (void*)(intptr_t)user, (unsigned long)e))
					 : poller->add(*fl, (void*)(intptr_t)user, (unsigned long)e);
			if(res)
				ex.fail("add", "failed");
			reg[i] = R{e, user};
			continue;
		}
		c -= 6;
		if(c < 6) {
			int i = c / 2, e = evs[c % 2];
			ex.trace("modify %d %x", i, e);
			int res = i == 0 ? poller->modify(th.fd(0), (unsigned long)e)
				: i == 1 ? (zmq ? poller->modify(z->a, (unsigned long)e)
						: poller->modify(th.fd(1), (unsigned long)e))
					 : poller->modify(*fl, (unsigned long)e);
			if(res != (reg.count(i) ? 0 : ESRCH))
				ex.fail("modify", mc::fmt("modify of item %d returned %d", i, res));
			if(reg.count(i))
				reg[i].events = e;
			continue;
		}
		c -= 6;
		if(c < 3) {
			ex.trace("remove %d", c);
			int res = c == 0   ? poller->remove(th.fd(0))
				  : c == 1 ? (zmq ? poller->remove(z->a) : poller->remove(th.fd(1)))
					   : poller->remove(*fl);
			if(res != (reg.count(c) ? 0 : ESRCH))
				ex.fail("remove", mc::fmt("remove of item %d returned %d", c, res));
			reg.erase(c);
			continue;
		}
		c -= 3;
		if(c < 3) {
			ex.trace("toggle %d", c);
			toggle(c);
			continue;
		}
		c -= 3;
		if(c == 1) {
			ex.trace("clear");
			poller->clear();
			reg.clear();
			continue;
		}
		std::map<int, int> exp, got;
		for(auto const& r : reg) {
			int e = ready(r.first) & r.second.events;
			if(e)
				exp[r.second.user] = e * 16 + r.second.events;
		}
		auto const& res = poller->poll(0);
		int err = errno;
		for(auto const& x : res)
			got[(int)(intptr_t)x.user_data] = (int)(x.revents * 16 + x.events);
		ex.trace("poll -> %s (%d)", show(got).c_str(), err);
		if(got != exp || res.size() != exp.size())
			ex.fail("result", mc::fmt("poll gave %s, expected %s", show(got).c_str(), show(exp).c_str()));
		if(err != (exp.empty() ? EAGAIN : 0))
			ex.fail("errno", mc::fmt("errno is %d", err));
		ex.obs(show(got));
	}
#endif
}

} // namespace

namespace stored {
int poll_once(TypedPollable const& p, Pollable::Events& revents) noexcept
{
	if(p.type() == PollableFd::staticType()) {
		int r = g_script[2];
		if(r == -1) {
			revents = Pollable::PollIn;
			return 0;
		}
		return r == -2 ? 0 : r;
	}
	return poll_once_default(p, revents);
}
} // namespace stored

void mc::setup(bool thorough)
{
	int x = thorough && !mc::slow ? 1 : 0;
	int d = mc::slow ? 4 : 5;
	mc::add("poll", mc::fmt("poll(): all sequences of %d operations on 3 file descriptors, one failing call", d + x), 16,
		[=](Explorer& ex) { fds<stored::PollPoller>(ex, d + x, 1); });
	mc::add("zmq", mc::fmt("zmq_poll(): all sequences of %d operations on 3 file descriptors, one failing call", d + x), 16,
		[=](Explorer& ex) { fds<stored::ZmqPoller>(ex, d + x, 1); });
	mc::add("hup", "closed peers", 1, [=](Explorer& ex) { hup<stored::PollPoller>(ex); });
	mc::add("hup-zmq", "closed peers", 1, [=](Explorer& ex) { hup<stored::ZmqPoller>(ex); });
	mc::add("loop", mc::fmt("LoopPoller: all sequences of %d operations", d + 1 + x), 8,
		[=](Explorer& ex) { loop(ex, d + 1 + x); });
	mc::add("old-zmq", mc::fmt("old interface: all sequences of %d operations on fd, socket and file layer", d + x), 16,
		[=](Explorer& ex) { old(ex, d + x, true); });
	mc::add("old-fd", mc::fmt("old interface: all sequences of %d operations on two fds and a file layer", d + x), 16,
		[=](Explorer& ex) { old(ex, d + x, false); });
}

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
