// Pipes: connections between pipes, groups, and segments that change the type.
// mc: property=P21 flavour=asan,opt stores=SigStore flags=-DSTORED_DRAFT_API=1
#include "common/pipes.h"
#include <cmath>
#include <cstdint>
#include <limits>

using namespace pt;

namespace {

// All connections between N pipes, without cycles.
void graph(Explorer& ex, int depth)
{
	FakeClock::t() = 1;
	Env real, want;
	auto p0 = Entry<int>{} >> KObserve::make(real, 10) >> Buffer<int>{0} >> Exit{};
	auto p1 = Entry<int>{} >> KModify::make(real, 20) >> Exit{};
	auto p2 = Entry<int>{} >> KTriggered::make(real, 30) >> Exit{};
	auto p3 = Entry<int>{} >> KConvert::make(real, 40) >> KSet::make(real, 40) >> Exit{};
	Pipe<int, int>* p[] = {&p0, &p1, &p2, &p3};
	int const N = 4;
	Pipe_ m[N];
	auto add = [&](int i, Model* s, int id) {
		m[i].s.emplace_back(s);
		s->e = &want;
		s->id = id;
	};
	auto* b0 = new KBuffer::M;
	b0->v = 0;
	add(0, new KObserve::M, 10);
	add(0, b0, 0);
	add(1, new KModify::M, 20);
	add(2, new KTriggered::M, 30);
	add(3, new KConvert::M, 0);
	add(3, new KSet::M, 0);
	int to[N] = {-1, -1, -1, -1};
	Group g;
	bool in[N] = {};

	std::function<int(int, int)> inject = [&](int i, int x) {
		int y = m[i].injectFrom(0, x);
		if(to[i] >= 0)
			inject(to[i], y);
		return y;
	};
	auto connect = [&](int i, int j) {
		to[i] = j;
		if(m[i].hasExtract())
			inject(j, m[i].extract());
	};
	auto reaches = [&](int i, int j) {
		for(int n = 0; i >= 0 && n <= N; n++) {
			if(i == j)
				return true;
			i = to[i];
		}
		return false;
	};

	for(int d = 0; d < depth; d++) {
		int const total = N * 2 + N * N + N + N * N + N + 3;
		int op = d ? ex.choose(total) : ex.shardChoose(total);
		bool unordered = false;
		if(op < N * 2) {
			int i = op / 2, x = op % 2 ? 5 : 0;
			ex.trace("%d >> p%d", x, i);
			int y = inject(i, x);
			int got = x >> *p[i];
			MC_CHECK(ex, "graph-inject", got == y, "got %d instead of %d", got, y);
		} else if((op -= N * 2) < N * N) {
			int i = op / N, j = op % N;
			if(reaches(j, i))
				ex.prune();
			ex.trace("p%d >> p%d", i, j);
			connect(i, j);
			auto& r = *p[i] >> *p[j];
			MC_CHECK(ex, "graph-chain", &r == p[j], "connecting returns another pipe");
		} else if((op -= N * N) < N) {
			ex.trace("disconnect p%d", op);
			p[op]->disconnect();
			to[op] = -1;
		} else if((op -= N) < N * N) {
			int i = op / N, j = op % N;
			// j comes between i and what follows i.
			if(i == j || (to[i] >= 0 && reaches(to[i], j)) || reaches(j, i))
				ex.prune();
			ex.trace("extend p%d by p%d", i, j);
			if(to[i] >= 0)
				connect(j, to[i]);
			else
				to[j] = -1;
			connect(i, j);
			p[i]->extend(*p[j]);
		} else if((op -= N * N) < N) {
			ex.trace("%s p%d in group", in[op] ? "no longer" : "put", op);
			if(in[op])
				d % 2 ? g.remove(*p[op]) : g.remove({*p[op]});
			else
				d % 2 ? g.add(*p[op]) : g.add({*p[op]});
			in[op] = !in[op];
		} else if((op -= N) == 0) {
			ex.trace("trigger group");
			bool t = false;
			for(int i = 0; i < N; i++)
				if(in[i]) {
					int y = 0;
					if(m[i].trigger(y)) {
						t = true;
						if(to[i] >= 0)
							inject(to[i], y);
					}
				}
			bool got = !t;
			g.trigger(&got);
			MC_CHECK(ex, "group-trigger", got == t, "trigger gives %d instead of %d", (int)got, (int)t);
			unordered = true;
		} else if(op == 1) {
			ex.trace("trigger all");
			for(int i = 0; i < N; i++) {
				int y = 0;
				bool t = m[i].trigger(y), got = false;
				if(t && to[i] >= 0)
					inject(to[i], y);
				static_cast<PipeBase*>(p[i])->trigger(&got);
				MC_CHECK(ex, "graph-trigger", got == t, "p%d: trigger gives %d instead of %d", i, (int)got, (int)t);
			}
		} else {
			ex.trace("clear group");
			g.clear();
			for(int i = 0; i < N; i++)
				in[i] = false;
		}
		size_t n = 0;
		for(int i = 0; i < N; i++) {
			n += in[i];
			MC_CHECK(ex, "graph-connected", p[i]->connected() == (to[i] >= 0), "p%d: connected() gives %d", i,
				 (int)p[i]->connected());
			MC_CHECK(ex, "graph-connection", p[i]->connection() == (to[i] >= 0 ? p[to[i]] : nullptr), "p%d: connection()",
				 i);
			int y = m[i].hasExtract() ? m[i].extract() : 0;
			int got = p[i]->extract();
			MC_CHECK(ex, "graph-extract", y == got, "p%d: extract gives %d instead of %d", i, got, y);
			MC_CHECK(ex, "group-member", (g.pipes().count(p[i]) == 1) == in[i], "p%d: membership", i);
		}
		MC_CHECK(ex, "group-size", g.size() == n && (size_t)std::distance(g.begin(), g.end()) == n, "size of group");
		if(unordered) {
			// The pipes of a group are triggered in any order.
			std::sort(real.log.begin(), real.log.end());
			std::sort(want.log.begin(), want.log.end());
		}
		MC_CHECK(ex, "graph-effects", real.log == want.log, "gives%s instead of%s", show(real.log).c_str(),
			 show(want.log).c_str());
		real.log.clear();
		want.log.clear();
		ex.step();
		uint64_t h = 0;
		for(int i = 0; i < N; i++)
			h = mc::mix(mc::mix(h, m[i].state()), (uint64_t)(to[i] * 2 + in[i]));
		ex.state(h);
	}
}

// Pipes owned by a group.
struct Counted {
	static int live;
	int x = 0;
	Counted()
	{
		live++;
	}
	Counted(Counted const& c)
		: x(c.x)
	{
		live++;
	}
	Counted& operator=(Counted const&) = default;
	~Counted()
	{
		live--;
	}
};
int Counted::live;

void owned(Explorer& ex, int depth)
{
	Counted::live = 0;
	{
		Group g, h;
		std::vector<Pipe<Counted, Counted>*> pipes, in, inh;
		for(int d = 0; d < depth; d++) {
			int op = ex.choose(8);
			if(op == 0) {
				ex.trace("new pipe in g");
				auto& p = Entry<Counted>{} >> Buffer<Counted>{} >> Ref{g};
				pipes.push_back(&p);
				in.push_back(&p);
			} else if(op == 1) {
				ex.trace("new pipe in h");
				auto& p = Entry<Counted>{} >> Buffer<Counted>{} >> Identity<Counted>{} >> Ref{h};
				pipes.push_back(&p);
				inh.push_back(&p);
			} else if(op == 2 || op == 3) {
				size_t i = op == 2 ? 0 : in.size() - 1;
				if(i >= in.size())
					ex.prune();
				ex.trace("destroy pipe %zu of g", i);
				auto* p = in[i];
				in.erase(in.begin() + (long)i);
				pipes.erase(std::find(pipes.begin(), pipes.end(), p));
				g.destroy(*p);
			} else if(op == 4) {
				if(in.empty())
					ex.prune();
				ex.trace("move from g to h");
				h.add(*in.back());
				g.remove(*in.back());
				inh.push_back(in.back());
				in.pop_back();
			} else if(op == 5) {
				ex.trace("destroy g");
				g.destroy();
				for(auto* p : in)
					pipes.erase(std::find(pipes.begin(), pipes.end(), p));
				in.clear();
			} else if(op == 6) {
				ex.trace("destroy h");
				h.destroy();
				for(auto* p : inh)
					pipes.erase(std::find(pipes.begin(), pipes.end(), p));
				inh.clear();
			} else {
				ex.trace("add again");
				for(auto* p : in)
					g.add({*p, *p});
			}
			MC_CHECK(ex, "owned-live", Counted::live == (int)pipes.size(), "%d live values, %zu pipes", Counted::live,
				 pipes.size());
			MC_CHECK(ex, "owned-size", g.size() == in.size() && h.size() == inh.size(), "%zu+%zu instead of %zu+%zu",
				 g.size(), h.size(), in.size(), inh.size());
			int x = 0;
			for(auto* p : pipes) {
				Counted c;
				c.x = ++x;
				auto v = p->inject(c);
				MC_CHECK(ex, "owned-inject", v.get().x == x, "wrong value");
			}
			x = 0;
			for(auto* p : pipes)
				MC_CHECK(ex, "owned-extract", p->extract().get().x == ++x, "wrong value");
			ex.step();
			ex.state(mc::mix(in.size(), inh.size()));
		}
		g.destroy();
		h.destroy();
	}
	MC_CHECK(ex, "owned-leak", Counted::live == 0, "%d live values", Counted::live);
}

// Strings, such that ownership and lifetime is visible.
void strings(Explorer& ex, int depth)
{
	typedef std::string S;
	auto wrap = [](S s) { return "<" + s + ">, which does not fit in a small string"; };
	int kind = ex.shardChoose(6);
	auto all = [&](auto& pipe, int rtl, bool buffered) {
		S last = "init";
		auto f = [&](S s) {
			for(int i = 0; i < rtl; i++)
				s = wrap(s);
			return s;
		};
		for(int d = 0; d < depth; d++) {
			S const v[] = {"", "a", "another string that is too long for a small string"};
			int op = ex.choose(5);
			if(op < 3) {
				ex.trace("inject %d", op);
				auto r = pipe.inject(v[op]);
				last = v[op];
				auto r2 = std::move(r);
				auto r3 = std::move(r2);
				MC_CHECK(ex, "string-inject", r3.get() == f(last), "got %s instead of %s", r3.get().c_str(),
					 f(last).c_str());
				MC_CHECK(ex, "string-compare", r3 == f(last) && f(last) == r3 && !(r3 < f(last)) && (S("") < r3) == (S("") < f(last)),
					 "compare");
				if(op == 1) {
					S x;
					std::move(r3).move(x);
					MC_CHECK(ex, "string-move", x == f(last), "got %s", x.c_str());
				}
			} else if(op == 3) {
				ex.trace("extract");
				S x = "old";
				pipe >> x;
				if(buffered)
					MC_CHECK(ex, "string-extract", x == f(last), "got %s instead of %s", x.c_str(), f(last).c_str());
			} else {
				ex.trace("casts");
				S x = pipe.exit_cast(v[2]), y = pipe.entry_cast(v[2]);
				MC_CHECK(ex, "string-cast", x.size() >= v[2].size() && y == v[2], "%s and %s", x.c_str(), y.c_str());
			}
			ex.step();
			ex.state(mc::hashStr(last) + (uint64_t)kind);
		}
	};
	S init = "init";
	if(kind == 0) {
		auto p = Entry<S>{} >> Buffer<S>{init} >> Cap{};
		all(p, 0, true);
	} else if(kind == 1) {
		auto p = Entry<S>{} >> Identity<S>{} >> Buffer<S>{init} >> Identity<S>{} >> Exit{};
		all(p, 0, true);
	} else if(kind == 2) {
		auto p = Entry<S>{} >> Call<S, S(S)>{wrap} >> Identity<S>{} >> Exit{};
		all(p, 1, false);
	} else if(kind == 3) {
		auto p = Entry<S>{} >> Call<S, S(S)>{wrap} >> Call<S, void(S&)>{[&](S& s) { s = wrap(s); }} >> Cap{};
		all(p, 2, false);
	} else if(kind == 4) {
		auto p = Entry<S>{} >> Identity<S>{} >> Call<S, S(S)>{wrap} >> Identity<S>{} >> Identity<S>{} >> Cap{};
		all(p, 1, false);
	} else {
		auto sink = Entry<S>{} >> Buffer<S>{} >> Cap{};
		auto p = Entry<S>{} >> Buffer<S>{init} >> Changes<S>{sink} >> Tee<S, 1>{sink} >> Identity<S>{} >> Exit{};
		all(p, 0, true);
	}
}

// Numeric casts saturate.
template <typename In, typename Out>
void casts(Explorer& ex, char const* name)
{
	typedef std::conditional_t<std::is_same<In, Out>::value, Identity<In>, Cast<In, Out>> C;
	auto p = Entry<In>{} >> C{} >> Buffer<Out>{} >> Cap{};
	std::vector<In> v{
		(In)0, (In)1, (In)2, (In)100, std::numeric_limits<In>::max(), std::numeric_limits<In>::lowest(),
		(In)(std::numeric_limits<In>::max() / 2), (In)(std::numeric_limits<In>::lowest() / 2)};
	if(std::numeric_limits<In>::is_signed) {
		v.push_back((In)-1);
		v.push_back((In)-100);
	}
	// Around the limits of the other type.
	for(int i = -2; i <= 2; i++) {
		long double hi = (long double)std::numeric_limits<Out>::max() + i;
		long double lo = (long double)std::numeric_limits<Out>::lowest() + i;
		if(hi <= (long double)std::numeric_limits<In>::max() && hi >= (long double)std::numeric_limits<In>::lowest())
			v.push_back((In)hi);
		if(lo <= (long double)std::numeric_limits<In>::max() && lo >= (long double)std::numeric_limits<In>::lowest())
			v.push_back((In)lo);
	}
	if(std::is_floating_point<In>::value) {
		v.push_back((In)0.5);
		v.push_back((In)2.25);
		v.push_back((In)-2.25);
		v.push_back((In)99.75);
		if(std::is_floating_point<Out>::value) {
			v.push_back(std::numeric_limits<In>::infinity());
			v.push_back(-std::numeric_limits<In>::infinity());
		}
	}
	In x = v[(size_t)ex.choose((int)v.size())];
	ex.trace("%s %Lg", name, (long double)x);
	Out got = p.inject(x);
	long double hi = (long double)std::numeric_limits<Out>::max(), lo = (long double)std::numeric_limits<Out>::lowest();
	long double lx = (long double)x;
	bool ok;
	if(std::is_floating_point<Out>::value)
		ok = std::isinf((double)lx) ? (long double)got == lx : lx > hi || lx < lo ? std::isinf((double)got) && (got > 0) == (lx > 0)
		   : lx > hi ? (long double)got == hi : lx < lo ? (long double)got == lo : got == (Out)x;
	else if(lx >= hi)
		ok = got == std::numeric_limits<Out>::max();
	else if(lx <= lo)
		ok = got == std::numeric_limits<Out>::lowest();
	else // floating point values may be rounded to any of both integers
		ok = std::fabs((double)((long double)got - lx)) < 1 && (std::floor((double)lx) != (double)lx || (long double)got == lx);
	MC_CHECK(ex, "cast", ok, "Cast<%s>: %Lg gives %Lg", name, lx, (long double)got);
	MC_CHECK(ex, "cast-extract", p.extract().get() == got, "Cast<%s>: extract gives another value", name);
	ex.step();
	ex.state(mc::hashStr(name));
}

// All pairs of values.
template <typename T, unsigned int order>
void similar(Explorer& ex, char const* name)
{
	typedef std::numeric_limits<T> L;
	std::vector<T> v{(T)0, (T)1, (T)9, (T)10, (T)11, (T)99, (T)100, (T)101, (T)110, (T)120, L::max(), (T)(L::max() - 1), (T)(L::max() / 2),
			 L::lowest(), (T)(L::lowest() + 1)};
	if(L::is_signed)
		for(T x : {-1, -9, -10, -100, -110})
			v.push_back(x);
	if(std::is_floating_point<T>::value)
		for(double x : {0.5, 0.50004, 1000.0, 1000.9, 1001.1, (double)L::infinity(), -(double)L::infinity(), (double)L::quiet_NaN()})
			v.push_back((T)x);
	T a = v[(size_t)ex.choose((int)v.size())];
	T b = v[(size_t)ex.choose((int)v.size())];
	ex.trace("%s: %Lg and %Lg", name, (long double)a, (long double)b);
	bool got = similar_to<T, order>{}(a, b);
	long double la = (long double)a, lb = (long double)b;
	long double margin = std::max(std::fabs(la), std::fabs(lb)) / powl(10, order), diff = std::fabs(la - lb);
	bool nan = std::isnan((double)la) || std::isnan((double)lb), inf = std::isinf((double)la) || std::isinf((double)lb);
	bool want = nan ? std::isnan((double)la) && std::isnan((double)lb) : inf ? a == b : diff <= margin;
	// The margin of integers is an integer too. Floating point numbers may be rounded.
	bool exact = !std::is_floating_point<T>::value || nan || inf || std::fabs((double)(diff - margin)) > (double)margin * 1e-3;
	if(!std::is_floating_point<T>::value)
		want = diff <= std::floor(margin);
	MC_CHECK(ex, "similar", !exact || got == want, "similar_to<%s>(%Lg, %Lg) gives %d", name, la, lb, (int)got);
	ex.step();
	ex.state(mc::hashStr(name));
}

void getMux(Explorer& ex, int depth)
{
	Env real;
	Log_ want;
	int kind = ex.shardChoose(5);
	Sink out(real.log, 1);
	int var = 0;
	float f = 0;
	size_t idx = 0;
	int bufs[2] = {1, 2};
	auto b0 = Entry<int>{} >> Buffer<int>{1} >> Exit{};
	auto b1 = Entry<int>{} >> Triggered<int>{2, out} >> Exit{};
	bool changed = false;

	auto get = Entry<bool>{} >> Get{real.store.a} >> KObserve::make(real, 10) >> Buffer<int>{-1} >> Exit{};
	int getBuf = -1;
	auto getv = Entry<bool>{} >> Get<float, decltype(real.store.find("/f"))>{real.store.find("/f")} >> Buffer<float>{} >> Cap{};
	float getvBuf = 0;
	auto mux = Entry<size_t>{} >> Mux<int, 2>{b0, b1} >> Exit{};
	auto mux1 = Entry<size_t>{} >> Mux<int, 1>{b1} >> KConvert::make(real, 20) >> Cap{};
	auto setv = Entry<float>{} >> Set<float, decltype(real.store.find("/f"))>{real.store.find("/f")} >> Cap{};

	if(kind == 0)
		get.connect(out);
	if(kind == 0)
		want.push_back(std::make_pair(1, -1));
	if(kind == 2)
		mux.connect(out);
	if(kind == 2)
		want.push_back(std::make_pair(1, 1));

	for(int d = 0; d < depth; d++) {
		int op = ex.choose(6);
		if(op == 0) {
			int x = var == 7 ? 0 : 7;
			ex.trace("a and buffers = %d", x);
			real.store.a = var = x;
			bufs[0] = x + 10;
			bufs[1] = x + 20;
			b0.inject(x + 10);
			b1.inject(x + 20);
			changed = true;
			real.store.f = f = (float)x + 0.5f;
		} else if(op == 1) {
			ex.trace("extract");
			switch(kind) {
			case 0: MC_CHECK(ex, "get-extract", get.extract() == getBuf, "got %d", get.extract().get()); break;
			case 1: MC_CHECK(ex, "get-extract", getv.extract() == getvBuf, "got %g", (double)getv.extract().get()); break;
			case 2: {
				int y = idx < 2 ? bufs[idx] : 0;
				MC_CHECK(ex, "mux-extract", mux.extract() == y, "got %d instead of %d", mux.extract().get(), y);
				break;
			}
			case 3:
				MC_CHECK(ex, "mux-extract", mux1.extract() == bufs[1] + 7, "got %d instead of %d", mux1.extract().get(),
					 bufs[1] + 7);
				break;
			default: MC_CHECK(ex, "set-extract", setv.extract() == f, "got %g instead of %g", (double)setv.extract().get(), (double)f);
			}
		} else if(op == 2) {
			ex.trace("trigger");
			bool t = false, wt = false;
			int y = 0;
			float fy = 0;
			switch(kind) {
			case 0:
				get.trigger(&t, y);
				wt = true;
				getBuf = var;
				want.push_back(std::make_pair(10, var));
				want.push_back(std::make_pair(1, var));
				MC_CHECK(ex, "get-trigger", y == var, "got %d instead of %d", y, var);
				break;
			case 1:
				getv.trigger(&t, fy);
				wt = true;
				getvBuf = f;
				MC_CHECK(ex, "get-trigger", fy == f, "got %g instead of %g", (double)fy, (double)f);
				break;
			case 2:
			case 3:
				if(kind == 2)
					mux.trigger(&t, y);
				else
					mux1.trigger(&t, y);
				if(changed && (kind == 3 || idx == 1)) {
					wt = true;
					changed = false;
					want.push_back(std::make_pair(1, bufs[1]));
					if(kind == 2)
						want.push_back(std::make_pair(1, bufs[1]));
					int w = bufs[1] + (kind == 3 ? 7 : 0);
					MC_CHECK(ex, "mux-trigger", y == w, "got %d instead of %d", y, w);
				}
				break;
			default: setv.trigger(&t, fy);
			}
			MC_CHECK(ex, "triggered", t == wt, "triggered is %d instead of %d", (int)t, (int)wt);
		} else {
			int x = op - 3;
			ex.trace("inject %d", x);
			switch(kind) {
			case 0: {
				int y = get.inject(x != 0);
				getBuf = var;
				want.push_back(std::make_pair(10, var));
				want.push_back(std::make_pair(1, var));
				MC_CHECK(ex, "get-inject", y == var, "got %d instead of %d", y, var);
				break;
			}
			case 1: {
				float y = getv.inject(x != 0);
				getvBuf = f;
				MC_CHECK(ex, "get-inject", y == f, "got %g instead of %g", (double)y, (double)f);
				break;
			}
			case 2: {
				idx = (size_t)x;
				int w = x < 2 ? bufs[x] : 0;
				int y = mux.inject(idx);
				want.push_back(std::make_pair(1, w));
				MC_CHECK(ex, "mux-inject", y == w, "got %d instead of %d", y, w);
				break;
			}
			case 3: {
				int y = mux1.inject((size_t)x);
				MC_CHECK(ex, "mux-inject", y == bufs[1] + 7, "got %d instead of %d", y, bufs[1] + 7);
				break;
			}
			default: {
				f = (float)x + 0.25f;
				float y = setv.inject(f);
				MC_CHECK(ex, "set-inject", y == f && real.store.f.get() == f, "got %g and %g instead of %g", (double)y,
					 (double)real.store.f.get(), (double)f);
			}
			}
		}
		MC_CHECK(ex, "effects", real.log == want, "gives%s instead of%s", show(real.log).c_str(), show(want).c_str());
		real.log.clear();
		want.clear();
		ex.step();
		ex.state(mc::mix((uint64_t)(kind * 8 + (int)idx), (uint64_t)(var * 2 + changed)));
	}
}

// Maps and scales, for all keys.
void maps(Explorer& ex)
{
	int kind = ex.shardChoose(4);
	int k = ex.choose(8) - 1;
	ex.trace("kind %d, %d", kind, k);
	if(kind == 0) {
		auto p = Entry<size_t>{} >> Map(10, 20, 10, 30) >> Buffer<int>{} >> Cap{};
		int const m[] = {10, 20, 10, 30};
		int w = k >= 0 && k < 4 ? m[k] : 10;
		MC_CHECK(ex, "index-map", p.inject((size_t)k) == w && p.extract() == w, "%d gives %d", k, p.extract().get());
		int v = k * 10;
		size_t r = v == 20 ? 1 : v == 30 ? 3 : 0;
		MC_CHECK(ex, "index-rmap", p.entry_cast(v) == r, "%d gives %zu", v, (size_t)p.entry_cast(v));
	} else if(kind == 1) {
		auto p = Entry<int>{} >> Map<int, double>({{-1, 0.5}, {1, 1.5}, {2, 2.5}, {4, 4.5}, {5, 1.5}}) >> Identity<double>{} >> Cap{};
		double w = k == 1 ? 1.5 : k == 2 ? 2.5 : k == 4 ? 4.5 : k == 5 ? 1.5 : 0.5;
		MC_CHECK(ex, "ordered-map", p.inject(k) == w, "%d gives %g", k, p.inject(k).get());
		double v = k + 0.5;
		int r = v == 1.5 ? 1 : v == 2.5 ? 2 : v == 4.5 ? 4 : -1;
		MC_CHECK(ex, "ordered-rmap", p.entry_cast(v) == r, "%g gives %d", v, (int)p.entry_cast(v));
	} else if(kind == 2) {
		auto m = make_random_map<std::string, int>({{"b", 1}, {"a", 2}, {"", 3}, {"a", 4}});
		auto p = Entry<std::string>{} >> Mapped<std::string, int, decltype(m)>{m} >> Cap{};
		char const* n[] = {"b", "a", "", "c", "aa", "b", "ab", "ba"};
		char const* key = n[k + 1];
		int w = !strcmp(key, "a") ? 2 : !strcmp(key, "") ? 3 : 1;
		MC_CHECK(ex, "random-map", p.inject(key) == w, "%s gives %d", key, p.inject(key).get());
		std::string r = k == 2 || k == 4 ? "a" : k == 3 ? "" : "b";
		MC_CHECK(ex, "random-rmap", p.entry_cast(k) == r, "%d gives %s", k, std::string(p.entry_cast(k)).c_str());
	} else {
		auto p = Entry<double>{} >> Buffer<double>{} >> Convert<Scale<double, std::ratio<3, 4>>>{} >> Convert<Scale<double, std::milli>>{} >> Cap{};
		double w = k * 0.75 / 1000.0;
		auto near = [](double a, double b) { return std::fabs(a - b) <= std::fabs(b) * 1e-12; };
		MC_CHECK(ex, "scale", near(p.inject(k), w) && near(p.extract(), w), "%d gives %g", k, p.extract().get());
		MC_CHECK(ex, "scale-entry", near(p.entry_cast(w), k), "%g gives %g", w, (double)p.entry_cast(w));
	}
	ex.step();
	ex.state((uint64_t)kind);
}

} // namespace

void mc::setup(bool)
{
	int depth = mc::slow ? 3 : 4;
	add("graph", mc::fmt("all sequences of %d operations on four connectable pipes and a group", depth), 20,
	    [=](Explorer& ex) { graph(ex, depth + (ex.thorough ? 1 : 0)); });
	add("owned", "all sequences of 6 (thorough: 7) operations on groups owning pipes", 1, [](Explorer& ex) { owned(ex, ex.thorough ? 7 : 6); });
	add("strings", "all sequences of 5 (thorough: 6) operations on pipes of strings", 6,
	    [](Explorer& ex) { strings(ex, ex.thorough ? 6 : 5); });
	add("getmux", "all sequences of 5 (thorough: 6) operations on Get, Set and Mux", 5,
	    [](Explorer& ex) { getMux(ex, ex.thorough ? 6 : 5); });
	add("maps", "all keys in and next to maps", 4, maps);
#define CAST(in, out) \
	add("cast-" #in "-" #out, "values at and around all limits", 1, [](Explorer& ex) { casts<in, out>(ex, #in "-" #out); })
#define CASTS(in)          \
	CAST(in, int8_t);  \
	CAST(in, uint8_t); \
	CAST(in, int32_t); \
	CAST(in, uint32_t); \
	CAST(in, int64_t); \
	CAST(in, uint64_t); \
	CAST(in, float);   \
	CAST(in, double)
	CASTS(int8_t);
	CASTS(uint8_t);
	CASTS(int16_t);
	CASTS(int32_t);
	CASTS(uint32_t);
	CASTS(int64_t);
	CASTS(uint64_t);
	CASTS(float);
	CASTS(double);
#define SIMILAR(t, o) add("similar-" #t "-" #o, "all pairs of special values", 1, [](Explorer& ex) { similar<t, o>(ex, #t ", " #o); })
	SIMILAR(int, 1);
	SIMILAR(int, 3);
	SIMILAR(int8_t, 1);
	SIMILAR(int8_t, 3);
	SIMILAR(int64_t, 2);
	SIMILAR(float, 3);
	SIMILAR(double, 1);
}

MC_MAIN
