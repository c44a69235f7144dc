// File, pipe and serial layers on a simulated operating system that answers in every possible way.
// mc: property=P24 flavour=asan,opt wrap=open,open64,close,read,write,fcntl,fcntl64,poll,zmq_poll,mkfifo,signal
// mc: wrap=isatty,tcgetattr,tcsetattr,tcdrain,tcsendbreak,usleep,nanosleep
#include "common/mc.h"
#include <cstdarg>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <stored>
#include <sys/stat.h>
#include <termios.h>
#include <zmq.h>

using mc::Explorer;

namespace {

struct File {
	std::string name;
	std::string in;	 // what can be read
	size_t got = 0;	 // number of bytes read
	std::string out; // what was written
	bool hasReader = true;
	bool dead = false; // write fails with EPIPE, read with EIO
};

struct Fd {
	File* f;
	bool open;
	bool r, w;
	bool null;
};

struct Os {
	Explorer* ex = nullptr;
	std::map<std::string, std::unique_ptr<File>> files;
	std::vector<Fd> fds;
	bool stdio = false;
	bool tty = false;
	int hard = 0;	  // errno of the last injected hard error
	int hardWrite = 0;
	int calls = 0;
	bool blocked = false;
	std::set<std::string> fifos;

	void reset(Explorer& e)
	{
		ex = &e;
		files.clear();
		fds.clear();
		fifos.clear();
		stdio = tty = false;
		hard = hardWrite = calls = 0;
	}
	File& file(std::string const& n)
	{
		auto& f = files[n];
		if(!f) {
			f.reset(new File);
			f->name = n;
		}
		return *f;
	}
	int add(std::string const& name, bool r, bool w)
	{
		fds.push_back(Fd{&file(name), true, r, w, name == "/dev/null"});
		return (int)fds.size() - 1 + 1000;
	}
	bool mine(int fd)
	{
		return ex && (fd >= 1000 || (stdio && fd >= 0 && fd <= 1) || fd == -1);
	}
	Fd* get(int fd, char const* what)
	{
		if(stdio && fd <= 1 && fd >= 0)
			return &fds[(size_t)fd];
		if(fd < 1000 || fd >= 1000 + (int)fds.size()) {
			bad("fd", mc::fmt("%s of invalid descriptor %d", what, fd));
			return nullptr;
		}
		return &fds[(size_t)fd - 1000];
	}
	void bad(char const* k, std::string const& m)
	{
		ex->note(k, m);
	}
	void call()
	{
		ex->step();
		if(++calls > 400) {
			ex->note("livelock", "too many system calls");
			printf("FAIL livelock\n");
			fflush(stdout);
			abort();
		}
	}
};

Os os;

int dev(int n)
{
	return os.ex->dev(n);
}

// Errno is left as is on success, as real calls do.
ssize_t err(int e, bool hard)
{
	if(hard)
		os.hard = e;
	errno = e;
	return -1;
}

} // namespace

extern "C" {
int __real_open(char const*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, void const*, size_t);
int __real_fcntl(int, int, ...);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_zmq_poll(zmq_pollitem_t*, int, long);
int __real_mkfifo(char const*, mode_t);
int __real_isatty(int);
int __real_usleep(useconds_t);
int __real_nanosleep(struct timespec const*, struct timespec*);
sighandler_t __real_signal(int, sighandler_t);

int __wrap_open(char const* name, int flags, ...)
{
	if(!os.ex)
		return __real_open(name, flags, 0666);
	os.call();
	std::string n(name);
	bool r = (flags & O_ACCMODE) != O_WRONLY, w = (flags & O_ACCMODE) != O_RDONLY;
	int d = dev(2);
	if(d) {
		os.ex->trace("open %s -> EMFILE", name);
		return (int)err(EMFILE, true);
	}
	if(os.fifos.count(n) && w && !os.file(n).hasReader) {
		os.ex->trace("open %s -> ENXIO", name);
		return (int)err(ENXIO, true);
	}
	int fd = os.add(n, r, w);
	os.ex->trace("open %s -> %d", name, fd);
	return fd;
}
int __wrap_open64(char const* name, int flags, ...)
{
	return __wrap_open(name, flags);
}
int __wrap_close(int fd)
{
	if(!os.mine(fd))
		return __real_close(fd);
	os.call();
	if(fd == -1) {
		errno = EBADF;
		return -1;
	}
	os.ex->trace("close %d", fd);
	Fd* f = os.get(fd, "close");
	if(!f)
		return -1;
	if(!f->open)
		os.bad("close", mc::fmt("descriptor %d closed twice", fd));
	f->open = false;
	// Some error; it is closed anyway.
	if(dev(2)) {
		errno = EDQUOT;
		return -1;
	}
	return 0;
}
ssize_t __wrap_read(int fd, void* buf, size_t n)
{
	if(!os.mine(fd))
		return __real_read(fd, buf, n);
	os.call();
	Fd* f = os.get(fd, "read");
	if(!f)
		return err(EBADF, true);
	if(!f->open || !f->r) {
		os.bad("read", mc::fmt("read of descriptor %d, which is closed or not for reading", fd));
		return err(EBADF, true);
	}
	if(f->null || !n)
		return 0;
	File& s = *f->f;
	if(s.dead)
		return err(EIO, true);
	size_t avail = std::min(n, s.in.size() - s.got);
	if(!avail) {
		// Nothing there
		switch(dev(4)) {
		case 0:
			os.ex->trace("read -> EAGAIN");
			return err(EAGAIN, false);
		case 1:
			os.ex->trace("read -> end");
			return 0;
		case 2:
			os.ex->trace("read -> EINTR");
			return err(EINTR, false);
		default:
			os.ex->trace("read -> EIO");
			return err(EIO, true);
		}
	}
	switch(dev(avail > 1 ? 5 : 4)) {
	case 0:
		break;
	case 1:
		os.ex->trace("read -> EINTR");
		return err(EINTR, false);
	case 2:
		os.ex->trace("read -> EAGAIN");
		return err(EAGAIN, false);
	case 3:
		os.ex->trace("read -> EIO");
		return err(EIO, true);
	case 4:
		avail = 1;
		break;
	}
	memcpy(buf, s.in.data() + s.got, avail);
	s.got += avail;
	os.ex->trace("read -> %zu bytes", avail);
	return (ssize_t)avail;
}
ssize_t __wrap_write(int fd, void const* buf, size_t n)
{
	if(!os.mine(fd))
		return __real_write(fd, buf, n);
	os.call();
	Fd* f = os.get(fd, "write");
	if(!f)
		return err(EBADF, true);
	if(!f->open || !f->w) {
		os.bad("write", mc::fmt("write to descriptor %d, which is closed or not for writing", fd));
		return err(EBADF, true);
	}
	if(f->null)
		return (ssize_t)n;
	File& s = *f->f;
	if(s.dead) {
		os.hardWrite = EPIPE;
		return err(EPIPE, true);
	}
	size_t len = n;
	switch(dev(n > 1 ? 6 : 4)) {
	case 0:
		break;
	case 1:
		os.ex->trace("write -> EINTR");
		return err(EINTR, false);
	case 2:
		os.ex->trace("write -> EAGAIN");
		return err(EAGAIN, false);
	case 3:
		os.ex->trace("write -> EPIPE");
		s.dead = true;
		os.hardWrite = EPIPE;
		return err(EPIPE, true);
	case 4:
		len = 1;
		break;
	case 5:
		len = n - 1;
		break;
	}
	s.out.append((char const*)buf, len);
	os.ex->trace("write %d -> %zu of %zu bytes", fd, len, n);
	return (ssize_t)len;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list a;
	va_start(a, cmd);
	long x = va_arg(a, long);
	va_end(a);
	if(!os.mine(fd))
		return __real_fcntl(fd, cmd, x);
	return cmd == F_GETFL ? O_RDWR : 0;
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
	va_list a;
	va_start(a, cmd);
	long x = va_arg(a, long);
	va_end(a);
	return __wrap_fcntl(fd, cmd, x);
}
}

namespace {
// Poll one of our descriptors. Returns the events, 0 for a time-out, or -1.
int doPoll(int fd, int in, int out, int e, int events, long timeout)
{
	os.call();
	Fd* f = os.get(fd, "poll");
	if(!f || !f->open) {
		os.bad("poll", "poll of a closed descriptor");
		return e;
	}
	bool rd = events & in;
	if(rd && f->f->in.size() == f->f->got && timeout < 0) {
		// Something arrives.
		f->f->in += (char)('a' + f->f->in.size() % 26);
	}
	bool ready = !rd || f->f->in.size() > f->f->got;
	int d = dev(timeout >= 0 && ready ? 5 : 4);
	if(d == 0) {
		os.ex->trace("poll(%ld) -> %s", timeout, ready ? "ready" : "timeout");
		return ready ? (events & (in | out)) : 0;
	}
	switch(d) {
	case 1:
		os.ex->trace("poll -> EINTR");
		errno = EINTR;
		return -1;
	case 2:
		os.ex->trace("poll -> ENOMEM");
		errno = ENOMEM;
		os.hard = ENOMEM;
		return -1;
	case 3:
		os.ex->trace("poll -> error on descriptor");
		f->f->dead = true;
		os.hard = EIO;
		return e;
	default:
		os.ex->trace("poll(%ld) -> timeout", timeout);
		return 0;
	}
}
} // namespace

extern "C" {
int __wrap_poll(struct pollfd* f, nfds_t n, int t)
{
	if(!os.ex || n != 1 || !os.mine(f->fd))
		return __real_poll(f, n, t);
	int r = doPoll(f->fd, POLLIN, POLLOUT, POLLERR, f->events, t);
	f->revents = (short)(r > 0 ? r : 0);
	return r > 0 ? 1 : r;
}
int __wrap_zmq_poll(zmq_pollitem_t* f, int n, long t)
{
	if(!os.ex || n != 1 || f->socket || !os.mine(f->fd))
		return __real_zmq_poll(f, n, t);
	int r = doPoll(f->fd, ZMQ_POLLIN, ZMQ_POLLOUT, ZMQ_POLLERR, f->events, t);
	f->revents = (short)(r > 0 ? r : 0);
	return r > 0 ? 1 : r;
}
int __wrap_mkfifo(char const* n, mode_t m)
{
	if(!os.ex)
		return __real_mkfifo(n, m);
	os.call();
	bool exists = os.fifos.count(n);
	if(dev(2)) {
		os.ex->trace("mkfifo %s -> EACCES", n);
		return (int)err(EACCES, true);
	}
	os.fifos.insert(n);
	if(exists)
		return (int)err(EEXIST, false);
	return 0;
}
sighandler_t __wrap_signal(int s, sighandler_t h)
{
	return os.ex ? SIG_DFL : __real_signal(s, h);
}
int __wrap_isatty(int fd)
{
	if(!os.mine(fd))
		return __real_isatty(fd);
	if(!os.tty)
		errno = ENOTTY;
	return os.tty;
}
int __wrap_tcgetattr(int, struct termios* t)
{
	memset(t, 0, sizeof(*t));
	if(dev(2))
		return (int)err(EIO, true);
	return 0;
}
int __wrap_tcsetattr(int, int, struct termios const*)
{
	if(dev(2))
		return (int)err(EIO, true);
	return 0;
}
int __wrap_tcdrain(int)
{
	return 0;
}
int __wrap_tcsendbreak(int, int)
{
	return dev(2) ? (int)err(EIO, false) : 0;
}
int __wrap_usleep(useconds_t u)
{
	return os.ex ? 0 : __real_usleep(u);
}
int __wrap_nanosleep(struct timespec const* a, struct timespec* b)
{
	return os.ex ? 0 : __real_nanosleep(a, b);
}
}

namespace {

class Up : public stored::ProtocolLayer {
public:
	std::string got;
	int n = 0;
	void decode(void* buffer, size_t len) override
	{
		if(!len)
			os.bad("decode", "nothing decoded");
		got.append((char*)buffer, len);
		n++;
	}
};

enum Kind {
	FdOne,
	FdTwo,
	NameOne,
	NameTwo,
	Stdio,
	PipeIn,
	PipeOut,
	Double,
	Serial,
	SerialTty,
	Xsim,
	Kinds
};
char const* const kindNames[] = {"fd", "2 fds", "file", "2 files", "stdio", "inbound pipe", "outbound pipe",
	"double pipe", "serial on file", "serial", "xsim"};

struct Leak {
	~Leak()
	{
		os.ex = nullptr;
	}
};

void body(Explorer& ex, int kindFrom, int kindTo, int depth, int budget)
{
	int kind = kindFrom + ex.shardChoose(kindTo - kindFrom);
	os.reset(ex);
	Leak leak;
	ex.budget(budget);
	ex.trace("%s", kindNames[kind]);
	Up up;
	std::unique_ptr<stored::PolledFileLayer> layer;
	stored::NamedPipeLayer* np = nullptr;
	stored::DoublePipeLayer* dp = nullptr;
	File *r = nullptr, *w = nullptr;
	switch(kind) {
	case FdOne: {
		int fd = os.add("f", true, true);
		layer.reset(new stored::FileLayer(fd, -1, 3));
		r = w = &os.file("f");
		break;
	}
	case FdTwo: {
		int a = os.add("a", true, false), b = os.add("b", false, true);
		layer.reset(new stored::FileLayer(a, b, 3));
		r = &os.file("a");
		w = &os.file("b");
		break;
	}
	case NameOne:
		layer.reset(new stored::FileLayer("f", ex.flip() ? "f" : nullptr, 3));
		r = w = &os.file("f");
		break;
	case NameTwo:
		layer.reset(new stored::FileLayer("a", "b", 3));
		r = &os.file("a");
		w = &os.file("b");
		break;
	case Stdio:
		os.stdio = true;
		os.add("a", true, false);
		os.add("b", false, true);
		layer.reset(new stored::StdioLayer(3));
		r = &os.file("a");
		w = &os.file("b");
		break;
	case PipeIn:
		layer.reset(np = new stored::NamedPipeLayer("p", stored::NamedPipeLayer::Inbound));
		r = &os.file("p");
		break;
	case PipeOut:
		layer.reset(np = new stored::NamedPipeLayer("p", stored::NamedPipeLayer::Outbound));
		w = &os.file("p");
		break;
	case Double:
		layer.reset(dp = new stored::DoublePipeLayer("a", "b"));
		r = &os.file("a");
		w = &os.file("b");
		break;
	case Serial:
	case SerialTty:
		os.tty = kind == SerialTty;
		layer.reset(new stored::SerialLayer("f", 115200));
		r = w = &os.file("f");
		break;
	case Xsim:
		layer.reset(dp = new stored::XsimLayer("x"));
		r = &os.file("x_from_xsim");
		w = &os.file("x_to_xsim");
		os.file("x_req_xsim");
		break;
	}
	up.setDown(layer.get());
	layer->setUp(&up);
	bool lazy = kind == PipeOut || kind == Double || kind == Xsim; // opens for writing when required

	// Construction
	if(!os.hard) {
		if(layer->lastError() && kind != SerialTty)
			ex.fail("ctor", mc::fmt("error %d although everything went well", layer->lastError()));
		if(!layer->isOpen() && kind != PipeOut)
			ex.fail("ctor", "not open");
	} else if(!layer->lastError() && kind != Xsim)
		// Note that Xsim tries to reconnect whenever required.
		ex.fail("ctor", mc::fmt("error %d not reported by the constructor", os.hard));
	bool ctorFailed = os.hard != 0;
	bool rdead = false;

	static char const payload[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	static char const arrive[] = "abcdefghijklmnopqrstuvwxyz";
	size_t sent = 0;
	size_t expected = 0; // received
	auto xsim = [&](std::string const& s) {
		std::string x;
		for(char c : s)
			if(c != stored::XsimLayer::KeepAlive)
				x += c;
		return x;
	};
	std::string pre = w && kind != Xsim ? w->out : std::string(); // auto baud

	for(int d = 0; d < depth; d++) {
		int c = ex.choose(8);
		os.hard = os.hardWrite = 0;
		os.calls = 0;
		bool open = layer->isOpen();
		ex.step();
		if(c < 2) {
			size_t len = c ? 3 : 1;
			std::string msg(payload + sent % 23, len);
			std::string before = w ? w->out : "";
			ex.trace("encode %s", msg.c_str());
			layer->encode(msg.data(), len, true);
			int le = layer->lastError();
			ex.trace("-> %d", le);
			ex.obs((uint64_t)le);
			std::string wrote = w ? w->out.substr(before.size()) : msg;
			if(kind == Xsim)
				wrote = xsim(wrote);
			if(!w) {
				// Inbound
			} else if(!le) {
				if(wrote != msg)
					ex.fail("write", mc::fmt("'%s' was written instead of '%s'", wrote.c_str(),
								 msg.c_str()));
			} else {
				if(msg.compare(0, wrote.size(), wrote))
					ex.fail("write", mc::fmt("'%s' was written instead of '%s'", wrote.c_str(),
								 msg.c_str()));
				bool dead = (!open && !lazy) || ctorFailed || (w && w->dead);
				if(!os.hard && !dead)
					ex.fail("error", mc::fmt("encode gave error %d for no reason", le));
				if(os.hardWrite && le != os.hardWrite && kind != Xsim)
					ex.fail("errno", mc::fmt("error is %d, while write failed with %d", le, os.hardWrite));
				// The rest is lost, so it must not be continued.
				if(!wrote.empty() && wrote.size() < msg.size() && !dp && layer->isOpen())
					ex.fail("open", "part of the message is written, but the layer is still open");
			}
			sent += len;
		} else if(c < 5) {
			long timeout = c == 2 ? 0 : c == 3 ? -1 : 2000;
			size_t got0 = up.got.size();
			int n0 = up.n;
			size_t read0 = r ? r->got : 0;
			ex.trace("recv %ld", timeout);
			int res = layer->recv(timeout);
			ex.trace("-> %d", res);
			ex.obs((uint64_t)res);
			if(res != layer->lastError() && kind != Xsim)
				ex.fail("lastError", mc::fmt("lastError is %d, recv returned %d", layer->lastError(), res));
			size_t n = up.got.size() - got0;
			if(r && r->got - read0 != n)
				ex.fail("read", "bytes that were read are not passed up");
			if(r && up.got != r->in.substr(0, up.got.size()))
				ex.fail("read", "wrong data received");
			if(kind == Xsim) {
				// More activity, also keep alives.
			} else if(!res) {
				if(!n || up.n != n0 + 1)
					ex.fail("read", "success without data");
			} else {
				if(n)
					ex.fail("read", "data passed up, but an error is returned");
				bool dead = (!open || ctorFailed || (r && r->dead));
				// The reading side may have been closed, while the writing side is not.
				if(os.hard)
					rdead = true;
				if(dp && rdead)
					dead = true;
				if(res != EAGAIN && res != EINTR && !os.hard && !dead && r)
					ex.fail("error", mc::fmt("recv gave error %d for no reason", res));
				if((res == EAGAIN || res == EINTR) && open && !layer->isOpen())
					ex.fail("closed", "closed by recv(), while nothing is wrong");
				if(os.hard && (res == EAGAIN || res == EINTR) && !dp)
					ex.fail("error", mc::fmt("recv did not report error %d", os.hard));
			}
		} else if(c == 5) {
			if(!r)
				ex.prune();
			r->in += arrive[r->in.size() % 26];
			r->in += arrive[r->in.size() % 26];
			ex.trace("arrived, %zu now", r->in.size() - r->got);
		} else if(c == 6) {
			// The other side.
			if(!w || !lazy)
				ex.prune();
			w->hasReader = !w->hasReader;
			w->dead = !w->hasReader;
			ex.trace("reader %s", w->hasReader ? "there" : "gone");
		} else {
			if(np) {
				ex.trace("reopen");
				np->reopen();
			} else if(dp) {
				ex.trace("reopen");
				dp->reopen();
			} else
				ex.prune();
		}
		// In the end, everything works when the error is gone
		if(layer->isOpen() && !dp && kind != PipeOut && kind != PipeIn) {
			// Both ends must be open.
			int open = 0;
			for(auto const& f : os.fds)
				open += f.open;
			if(!open)
				ex.fail("open", "isOpen(), while all descriptors are closed");
		}
		if(!layer->isOpen() && !ctorFailed && kind != Xsim)
			for(auto const& f : os.fds)
				if(f.open)
					ex.fail("open", "not isOpen(), while a descriptor is still open");
		if(ex.failed())
			throw mc::Violation();
	}
	// Recover
	if(lazy && w && !ctorFailed) {
		ex.budget(0);
		w->hasReader = true;
		w->dead = false;
		if(dp)
			dp->reopen();
		std::string before = w->out;
		layer->encode("?", 1, true);
		if(layer->lastError() || xsim(w->out.substr(before.size())) != "?")
			ex.fail("recover", mc::fmt("does not work when there is a reader again: %d", layer->lastError()));
	}
	up.setDown(nullptr);
	layer->setUp(nullptr);
	os.calls = 0;
	layer.reset();
	for(size_t i = 0; i < os.fds.size(); i++)
		if(os.fds[i].open)
			ex.fail("leak", mc::fmt("descriptor of %s is not closed", os.fds[i].f->name.c_str()));
	(void)expected;
	(void)pre;
}

} // namespace

void mc::setup(bool thorough)
{
	int b = thorough ? 3 : 2;
	int d = mc::slow ? 3 : 4;
	for(int k = 0; k < Kinds; k++)
		mc::add([](std::string s) { for(char& c : s) if(c == ' ') c = '-'; return s; }(kindNames[k]),
			mc::fmt("all sequences of %d operations; %d deviating answers of system calls", d, b), 1,
			[=](Explorer& ex) { body(ex, k, k + 1, d, b); });
}

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
