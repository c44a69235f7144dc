// The segments of pipes, and their documented behaviour.
#include "mc.h"
#include "SigStore.h"
#include <algorithm>
#include <memory>
#include <stored>
#include <string>
#include <vector>

using mc::Explorer;
using namespace stored::pipes;

namespace pt {

// Everything observable: (who, what).
typedef std::vector<std::pair<int, int>> Log_;

struct FakeClock {
	typedef std::chrono::milliseconds duration;
	typedef duration::rep rep;
	typedef duration::period period;
	typedef std::chrono::time_point<FakeClock> time_point;
	static constexpr bool is_steady = true;
	static int& t()
	{
		static int t_ = 1;
		return t_;
	}
	static time_point now()
	{
		return time_point(duration(t()));
	}
};
int const Interval = 2;

class Sink : public PipeEntry<int> {
public:
	Sink(Log_& l, int i)
		: log(&l)
		, id(i)
	{}
	void trigger(bool*) override {}

private:
	void justInject(int const& x) override
	{
		log->push_back(std::make_pair(id, x));
	}
	Log_* log;
	int id;
};

class Gate : public PipeExit<bool> {
public:
	explicit Gate(bool& b)
		: m_b(&b)
		, m_pipe(Entry<bool>{} >> Buffer<bool>{} >> Cap{})
	{}
	ExitValue<bool> extract() override
	{
		return m_pipe.inject(*m_b);
	}
	void trigger(bool*) override {}
	void trigger(bool*, bool&) override {}

private:
	bool* m_b;
	decltype(Entry<bool>{} >> Buffer<bool>{} >> Cap{}) m_pipe;
};

// What the segments of one pipe are attached to; one side for the real one, one for the model.
struct Env {
	Log_ log;
	bool gate = false;
	stored::SigStore store; // real side only
	int var = 0;		// model side only
	std::vector<std::unique_ptr<Sink>> sinks;
	std::unique_ptr<Gate> gate_;
	stored::Signal<int, int, int> signal;
	std::vector<std::unique_ptr<stored::Signal<int, int, int>>> signals;

	Env()
	{
		gate_.reset(new Gate(gate));
	}
	Sink& sink(int id)
	{
		sinks.emplace_back(new Sink(log, id));
		return *sinks.back();
	}
	void ev(int id, int x)
	{
		log.push_back(std::make_pair(id, x));
	}
};

// The documented behaviour.
struct Model {
	Env* e = nullptr;
	int id = 0;
	bool hasExtract = false;
	bool hasTrigger = false;
	bool castEvents = false; // a cast is observable
	virtual ~Model() {}
	virtual int inject(int x) = 0;
	virtual int extract()
	{
		return 0;
	}
	virtual int exitCast(int x)
	{
		return x;
	}
	virtual int entryCast(int x)
	{
		return x;
	}
	virtual int trigger(bool&)
	{
		return 0;
	}
	virtual uint64_t state()
	{
		return 0;
	}
};

struct KIdentity {
	static char const* name()
	{
		return "Identity";
	}
	static auto make(Env&, int)
	{
		return Identity<int>{};
	}
	struct M : Model {
		int inject(int x) override
		{
			return x;
		}
	};
};
struct KBuffer {
	static char const* name()
	{
		return "Buffer";
	}
	static auto make(Env&, int)
	{
		return Buffer<int>{4};
	}
	struct M : Model {
		int v = 4;
		M()
		{
			hasExtract = true;
		}
		int inject(int x) override
		{
			return v = x;
		}
		int extract() override
		{
			return v;
		}
		uint64_t state() override
		{
			return (uint64_t)v;
		}
	};
};
struct KObserve {
	static char const* name()
	{
		return "Call{void(T)}";
	}
	static auto make(Env& e, int id)
	{
		return Call<int, void(int)>{[&e, id](int x) { e.ev(id, x); }};
	}
	struct M : Model {
		int inject(int x) override
		{
			e->ev(id, x);
			return x;
		}
	};
};
struct KModify {
	static char const* name()
	{
		return "Call{void(T&)}";
	}
	static auto make(Env& e, int id)
	{
		return Call<int, void(int&)>{[&e, id](int& x) {
			e.ev(id, x);
			x += 10;
		}};
	}
	struct M : Model {
		int inject(int x) override
		{
			e->ev(id, x);
			return x + 10;
		}
	};
};
struct KFunction {
	static char const* name()
	{
		return "Call{T(T)}";
	}
	static auto make(Env& e, int id)
	{
		return Call<int, int(int)>{[&e, id](int x) {
			e.ev(id, x);
			return x * 2;
		}};
	}
	struct M : Model {
		int inject(int x) override
		{
			e->ev(id, x);
			return x * 2;
		}
	};
};
struct KBounded {
	static char const* name()
	{
		return "Constrained{Bounded{1,4}}";
	}
	static auto make(Env&, int)
	{
		return Constrained<Bounded<int>>{Bounded<int>{1, 4}};
	}
	struct M : Model {
		int inject(int x) override
		{
			return exitCast(x);
		}
		int exitCast(int x) override
		{
			return x < 1 ? 1 : x > 4 ? 4 : x;
		}
	};
};
struct Plus7 {
	int exit_cast(int x) const
	{
		return x + 7;
	}
	int entry_cast(int x) const
	{
		return x - 7;
	}
};
struct KConvert {
	static char const* name()
	{
		return "Convert{+7}";
	}
	static auto make(Env&, int)
	{
		return Convert<Plus7>{};
	}
	struct M : Model {
		int inject(int x) override
		{
			return x + 7;
		}
		int exitCast(int x) override
		{
			return x + 7;
		}
		int entryCast(int x) override
		{
			return x - 7;
		}
	};
};
struct KTee {
	static char const* name()
	{
		return "Tee";
	}
	static auto make(Env& e, int id)
	{
		return Tee<int, 2>{e.sink(id), e.sink(id + 1)};
	}
	struct M : Model {
		int inject(int x) override
		{
			e->ev(id, x);
			e->ev(id + 1, x);
			return x;
		}
	};
};
struct KTriggered {
	static char const* name()
	{
		return "Triggered";
	}
	static auto make(Env& e, int id)
	{
		return Triggered<int, std::equal_to<int>, 2>{5, e.sink(id), e.sink(id + 1)};
	}
	struct M : Model {
		int v = 5;
		bool changed = false;
		M()
		{
			hasExtract = hasTrigger = true;
		}
		int inject(int x) override
		{
			if(x != v)
				changed = true;
			return v = x;
		}
		int extract() override
		{
			return v;
		}
		int trigger(bool& t) override
		{
			t = changed;
			if(changed) {
				e->ev(id, v);
				e->ev(id + 1, v);
			}
			changed = false;
			return v;
		}
		uint64_t state() override
		{
			return (uint64_t)v * 2 + changed;
		}
	};
};
struct KChanges {
	static char const* name()
	{
		return "Changes";
	}
	static auto make(Env& e, int id)
	{
		return Changes<int>{e.sink(id), 5};
	}
	struct M : Model {
		int v = 5;
		int inject(int x) override
		{
			if(x != v)
				e->ev(id, x);
			return v = x;
		}
		uint64_t state() override
		{
			return (uint64_t)v;
		}
	};
};
template <bool invert>
struct KTransistor_ {
	static char const* name()
	{
		return invert ? "Transistor{inverted}" : "Transistor";
	}
	static auto make(Env& e, int)
	{
		return Transistor<int, invert>{*e.gate_};
	}
	struct M : Model {
		int inject(int x) override
		{
			return e->gate != invert ? x : 0;
		}
		uint64_t state() override
		{
			return e->gate;
		}
	};
};
typedef KTransistor_<false> KTransistor;
typedef KTransistor_<true> KTransistorInv;
struct KMap {
	static char const* name()
	{
		return "Map{0:3,1:5,5:0}";
	}
	static auto make(Env&, int)
	{
		return Map<int, int>({{0, 3}, {1, 5}, {5, 0}});
	}
	struct M : Model {
		int inject(int x) override
		{
			return exitCast(x);
		}
		int exitCast(int x) override
		{
			return x == 1 ? 5 : x == 5 ? 0 : 3;
		}
		int entryCast(int x) override
		{
			return x == 5 ? 1 : x == 0 ? 5 : 0;
		}
	};
};
struct KRandomMap {
	static char const* name()
	{
		return "RandomMap{5:1,0:5,1:1}";
	}
	static auto make(Env&, int)
	{
		auto m = make_random_map<int, int>({{5, 1}, {0, 5}, {1, 1}});
		return Mapped<int, int, decltype(m)>{m};
	}
	struct M : Model {
		int inject(int x) override
		{
			return exitCast(x);
		}
		int exitCast(int x) override
		{
			return x == 0 ? 5 : 1;
		}
		int entryCast(int x) override
		{
			return x == 5 ? 0 : 5;
		}
	};
};
struct KSet {
	static char const* name()
	{
		return "Set";
	}
	static auto make(Env& e, int)
	{
		return Set{e.store.a};
	}
	struct M : Model {
		M()
		{
			hasExtract = true;
		}
		int inject(int x) override
		{
			return e->var = x;
		}
		int extract() override
		{
			return e->var;
		}
		uint64_t state() override
		{
			return (uint64_t)e->var;
		}
	};
};
struct KRate {
	static char const* name()
	{
		return "RateLimit";
	}
	static auto make(Env& e, int id)
	{
		return RateLimit<int, std::equal_to<int>, FakeClock::duration, FakeClock>{
			e.sink(id), FakeClock::duration(Interval), 5};
	}
	struct M : Model {
		int v = 5;
		bool changed = false;
		int suppress = 0;
		M()
		{
			hasTrigger = true;
		}
		int inject(int x) override
		{
			if(x != v) {
				v = x;
				if((changed = FakeClock::t() <= suppress) == false) {
					suppress = FakeClock::t() + Interval;
					e->ev(id, x);
				}
			}
			return x;
		}
		int trigger(bool& t) override
		{
			if(changed && FakeClock::t() > suppress) {
				t = true;
				changed = false;
				e->ev(id, v);
			}
			return v;
		}
		uint64_t state() override
		{
			return (uint64_t)(v * 2 + changed) * 100 + (uint64_t)std::max(-1, suppress - FakeClock::t());
		}
	};
};
struct KLog {
	static char const* name()
	{
		return "Log";
	}
	static auto make(Env& e, int id)
	{
		return Log<int>{"log", [&e, id](std::string const& s, int const& x) { e.ev(s == "log" ? id : -1, x); }};
	}
	struct M : Model {
		int inject(int x) override
		{
			e->ev(id, x);
			return x;
		}
	};
};
struct KSignal {
	static char const* name()
	{
		return "Signal";
	}
	static auto make(Env& e, int id)
	{
		e.signals.emplace_back(new stored::Signal<int, int, int>);
		auto& s = *e.signals.back();
		s.connect(1, [&e, id](int x) { e.ev(id, x); });
		s.connect(2, [&e, id](int x) { e.ev(-id, x); });
		return Signal<int, int, int>{s, 1};
	}
	struct M : Model {
		M()
		{
			castEvents = true;
		}
		int inject(int x) override
		{
			e->ev(id, x);
			return x;
		}
		int exitCast(int x) override
		{
			e->ev(id, x);
			return x;
		}
	};
};

// A sequence of models.
struct Pipe_ {
	std::vector<std::unique_ptr<Model>> s;

	int injectFrom(size_t i, int x)
	{
		for(; i < s.size(); i++)
			x = s[i]->inject(x);
		return x;
	}
	// Values that may be extracted. Without any segment that can be extracted
	// from, it is a default value. Whether it is cast by the segments is not
	// defined then.
	bool hasExtract() const
	{
		for(auto const& m : s)
			if(m->hasExtract)
				return true;
		return false;
	}
	int extract()
	{
		size_t i = s.size();
		while(i > 0 && !s[i - 1]->hasExtract)
			i--;
		int x = 0;
		if(i > 0)
			x = s[i - 1]->extract();
		else
			i = 1;
		for(; i < s.size(); i++)
			x = s[i]->exitCast(x);
		return x;
	}
	int exitCast(int x)
	{
		for(auto& m : s)
			x = m->exitCast(x);
		return x;
	}
	int entryCast(int x)
	{
		for(size_t i = s.size(); i > 0; i--)
			x = s[i - 1]->entryCast(x);
		return x;
	}
	// The first segment that provides data, injects it into the remainder.
	bool trigger(int& x)
	{
		for(size_t i = 0; i < s.size(); i++) {
			bool t = false;
			if(s[i]->hasTrigger)
				x = s[i]->trigger(t);
			if(t) {
				x = injectFrom(i + 1, x);
				return true;
			}
		}
		return false;
	}
	bool castEvents() const
	{
		for(auto const& m : s)
			if(m->castEvents)
				return true;
		return false;
	}
	uint64_t state()
	{
		uint64_t h = 0;
		for(auto& m : s)
			h = mc::mix(h, m->state());
		return h;
	}
};

static inline std::string show(Log_ const& l)
{
	std::string r;
	for(auto const& x : l)
		r += mc::fmt(" %d:%d", x.first, x.second);
	return r;
}

static int const vals[] = {0, 1, 5};

// Only inject, trigger, and passing time, to go deeper.
static bool timed = false;

// Runs a pipe, which is created by Make(env).
template <typename Make, typename... K>
void run(Explorer& ex, int depth, std::string const& name, Make&& make)
{
	FakeClock::t() = 1;
	Env real, want;
	auto pipe = make(real);
	Pipe_ model;
	int id = 0;
	int dummy[] = {((void)model.s.emplace_back(new typename K::M), model.s.back()->e = &want, model.s.back()->id = ++id * 10)...};
	(void)dummy;
	Sink sinkReal(real.log, 1);
	bool connected = false;

	auto check = [&](char const* what) {
		MC_CHECK(ex, "effects", real.log == want.log, "%s: %s gives%s instead of%s", name.c_str(), what,
			 show(real.log).c_str(), show(want.log).c_str());
		for(auto const& x : real.log)
			ex.obs((uint64_t)x.second);
		real.log.clear();
		want.log.clear();
	};

	for(int d = 0; d < depth; d++) {
		int const V = 3;
		int op, steps = 1;
		if(timed) {
			static int const ops[] = {0, 1, V + 1, V + 4, V + 4};
			int o = ex.choose(5);
			op = ops[o];
			if(o == 4)
				steps = Interval + 1;
		} else
			op = ex.choose(V + 6);
		if(op < V) {
			int x = vals[op];
			ex.trace("inject %d", x);
			int y = model.injectFrom(0, x);
			if(connected)
				want.ev(1, y);
			int got;
			switch((d + op) % 4) {
			case 0: {
				auto v = pipe.inject(x);
				auto w = std::move(v);
				got = w.get();
				auto z = std::move(w);
				MC_CHECK(ex, "exit-value", z.get() == got && (int const&)z == got, "%s: moved value differs",
					 name.c_str());
				for(int c = got - 1; c <= got + 1; c++)
					MC_CHECK(ex, "exit-value-compare",
						 (z == c) == (got == c) && (z != c) == (got != c) && (z < c) == (got < c)
							 && (z > c) == (got > c) && (z <= c) == (got <= c)
							 && (z >= c) == (got >= c) && (c == z) == (c == got)
							 && (c != z) == (c != got) && (c < z) == (c < got)
							 && (c > z) == (c > got) && (c <= z) == (c <= got)
							 && (c >= z) == (c >= got),
						 "%s: comparing %d with %d", name.c_str(), got, c);
				break;
			}
			case 1: got = x >> pipe; break;
			case 2: got = pipe << x; break;
			default: got = pipe(x);
			}
			MC_CHECK(ex, "inject", got == y, "%s: injecting %d gives %d instead of %d", name.c_str(), x, got, y);
			check("inject");
		} else if((op -= V) == 0) {
			ex.trace("extract");
			int y = model.extract();
			int got;
			switch(d % 3) {
			case 0: got = pipe.extract(); break;
			case 1: pipe >> got; break;
			default: got << pipe;
			}
			MC_CHECK(ex, "extract", got == y || (!model.hasExtract() && got == 0), "%s: extract gives %d instead of %d",
				 name.c_str(), got, y);
			check("extract");
		} else if(op == 1) {
			ex.trace("trigger");
			int y = 0;
			bool t = model.trigger(y);
			bool got = false;
			int gotY = 0;
			if(t && connected)
				want.ev(1, y);
			switch(d % 2) {
			case 0:
				pipe.trigger(&got, gotY);
				MC_CHECK(ex, "trigger", !t || gotY == y, "%s: trigger gives %d instead of %d", name.c_str(), gotY, y);
				break;
			default: pipe.trigger(&got);
			}
			MC_CHECK(ex, "triggered", got == t, "%s: triggered gives %d instead of %d", name.c_str(), (int)got, (int)t);
			if(!t && model.castEvents())
				real.log.clear();
			check("trigger");
		} else if(op == 2) {
			if(connected) {
				ex.trace("disconnect");
				pipe.disconnect();
				connected = false;
			} else {
				ex.trace("connect");
				pipe.connect(sinkReal);
				connected = true;
				// Forwards what it has.
				if(model.hasExtract())
					want.ev(1, model.extract());
			}
			MC_CHECK(ex, "connected", pipe.connected() == connected && pipe.connection() == (connected ? &sinkReal : nullptr),
				 "connected() gives %d", (int)pipe.connected());
			check("connect");
		} else if(op == 3) {
			ex.trace("toggle gate");
			real.gate = want.gate = !real.gate;
		} else if(op == 4) {
			int x = real.store.a.get() == 1 ? 8 : 1;
			ex.trace("set variable to %d, and let time %d pass", x, steps);
			real.store.a = x;
			want.var = x;
			FakeClock::t() += steps;
		} else {
			ex.trace("casts");
			for(int x : vals) {
				int y = model.exitCast(x), got = pipe.exit_cast(x);
				MC_CHECK(ex, "exit-cast", got == y, "%s: exit_cast(%d) gives %d instead of %d", name.c_str(), x, got, y);
				y = model.entryCast(x), got = pipe.entry_cast(x);
				MC_CHECK(ex, "entry-cast", got == y, "%s: entry_cast(%d) gives %d instead of %d", name.c_str(), x, got,
					 y);
			}
			check("casts");
		}
		ex.step();
		ex.state(mc::mix(mc::mix(model.state(), connected), mc::mix((uint64_t)real.store.a.get(), real.gate)));
	}
}

template <typename K>
std::string names()
{
	return K::name();
}
template <typename K0, typename K1, typename... K>
std::string names()
{
	return std::string(K0::name()) + " >> " + names<K1, K...>();
}

typedef void (*runner)(Explorer&, int);

template <typename A>
struct R1 {
	static void go(Explorer& ex, int depth)
	{
		auto mk = [](Env& e) { return Entry<int>{} >> A::make(e, 10) >> Exit{}; };
		run<decltype(mk)&, A>(ex, depth, names<A>(), mk);
	}
};
template <typename A, typename B>
struct R2 {
	static void go(Explorer& ex, int depth)
	{
		auto mk = [](Env& e) { return Entry<int>{} >> A::make(e, 10) >> B::make(e, 20) >> Exit{}; };
		run<decltype(mk)&, A, B>(ex, depth, names<A, B>(), mk);
	}
};
template <typename A, typename B, typename C>
struct R3 {
	static void go(Explorer& ex, int depth)
	{
		auto mk = [](Env& e) {
			return Entry<int>{} >> A::make(e, 10) >> B::make(e, 20) >> C::make(e, 30) >> Exit{};
		};
		run<decltype(mk)&, A, B, C>(ex, depth, names<A, B, C>(), mk);
	}
};

template <typename... K>
struct List {};

template <typename... K>
void all1(std::vector<runner>& r, List<K...>)
{
	int d[] = {(r.push_back(&R1<K>::go), 0)...};
	(void)d;
}
template <typename A, typename... K>
void with1(std::vector<runner>& r, List<K...>)
{
	int d[] = {(r.push_back(&R2<A, K>::go), 0)...};
	(void)d;
}
template <typename... K>
void all2(std::vector<runner>& r, List<K...> l)
{
	int d[] = {(with1<K>(r, l), 0)...};
	(void)d;
}
template <typename A, typename B, typename... K>
void with2(std::vector<runner>& r, List<K...>)
{
	int d[] = {(r.push_back(&R3<A, B, K>::go), 0)...};
	(void)d;
}
template <typename A, typename... K>
void with2a(std::vector<runner>& r, List<K...> l)
{
	int d[] = {(with2<A, K>(r, l), 0)...};
	(void)d;
}
template <typename... K>
void all3(std::vector<runner>& r, List<K...> l)
{
	int d[] = {(with2a<K>(r, l), 0)...};
	(void)d;
}

} // namespace pt
