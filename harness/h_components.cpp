// Control components: all sequences of inputs and parameter settings, against reference models.
// mc: property=P22 flavour=asan,opt stores=CompStore
#include "common/mc.h"
#include "CompStore.h"
#include <cmath>
#include <deque>
#include <limits>
#include <stored>

using mc::Explorer;

namespace {

float const inf = std::numeric_limits<float>::infinity();
float const nan_ = std::numeric_limits<float>::quiet_NaN();
double const Pi = 3.141592653589793238462643;

class Store : public STORE_T(Store, stored::CompStoreDefaultFunctions, stored::CompStoreBase) {
	STORE_CLASS(Store, stored::CompStoreDefaultFunctions, stored::CompStoreBase)
public:
	Store() = default;

	float freq = 8;
	bool pinValue = false;
	int pinSets = 0;

	void __pin_in__pin(bool set, bool& v)
	{
		if(!set)
			v = pinValue;
	}
	void __pin_in_p__pin(bool set, bool& v)
	{
		if(!set)
			v = pinValue;
	}
	void __pin_out__pin(bool set, bool& v)
	{
		if(set) {
			pinValue = v;
			pinSets++;
		}
	}
#define FREQ(name)                            \
	void name(bool set, float& v)         \
	{                                     \
		if(!set)                      \
			v = freq;             \
	}
	FREQ(__pid__frequency_Hz)
	FREQ(__small_pid__frequency_Hz)
	FREQ(__sine__sample_frequency_Hz)
	FREQ(__pulse__sample_frequency_Hz)
	FREQ(__small_pulse__sample_frequency_Hz)
	FREQ(__filter__sample_frequency_Hz)
	FREQ(__small_filter__sample_frequency_Hz)
	FREQ(__ramp__sample_frequency_Hz)
	FREQ(__small_ramp__sample_frequency_Hz)
};

bool same(double a, double b, double tol = 1e-5)
{
	if(std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b);
	if(std::isinf(a) || std::isinf(b))
		return a == b;
	return std::fabs(a - b) <= tol * (1 + std::fabs(b));
}

void expect(Explorer& ex, char const* what, double got, double ref, double tol = 1e-5)
{
	ex.obs((uint64_t)(int64_t)(std::isfinite(got) ? got * 1000 : 1e9));
	if(!same(got, ref, tol))
		ex.fail(what, mc::fmt("%s is %.9g, expected %.9g", what, got, ref));
}

template <typename T, size_t N>
T pick(Explorer& ex, T const (&a)[N])
{
	return a[ex.choose((int)N)];
}

template <typename T, size_t N>
T shardPick(Explorer& ex, T const (&a)[N])
{
	return a[ex.shardChoose((int)N)];
}

///////////////////////////////////////////////////////////////////////////////
// Amplifier

struct AmpRef {
	bool enable = true;
	double gain, offset, low = -inf, high = inf, override_ = nan_;
	double operator()(double x) const
	{
		if(!std::isnan(override_))
			return override_;
		double y = enable ? x * gain + offset : x;
		return std::min(std::max(low, y), high);
	}
};

void amp(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::Amplifier<Store>::objects("/amp/");
	stored::Amplifier<Store, o.flags()> a{o, s};
	AmpRef r;
	r.gain = 2;
	r.offset = 0.5;
	double out = 0;
	float x = 0;
	float const xs[] = {0.25f, -3, 0, 100, 0.5f};
	for(int i = 0; i < depth; i++) {
		int op = i ? ex.choose(8) : ex.shardChoose(8);
		switch(op) {
		case 0:
			x = pick(ex, xs);
			ex.trace("amp(%g)", x);
			expect(ex, "returned value", a(x), out = r(x));
			break;
		case 1:
			x = pick(ex, xs);
			ex.trace("input=%g amp()", x);
			a.inputObject() = x;
			expect(ex, "returned value", a(), out = r(x));
			break;
		case 2: {
			float const v[] = {-1.5f, 0, 1};
			r.gain = pick(ex, v);
			s.amp__gain = (float)r.gain;
			ex.trace("gain=%g", r.gain);
			break;
		}
		case 3: {
			float const v[] = {-1, 0};
			r.offset = pick(ex, v);
			s.amp__offset = (float)r.offset;
			ex.trace("offset=%g", r.offset);
			break;
		}
		case 4: {
			float const v[] = {-2, 0.25f};
			r.low = pick(ex, v);
			s.amp__low = (float)r.low;
			ex.trace("low=%g", r.low);
			break;
		}
		case 5: {
			float const v[] = {3, 0.25f};
			r.high = pick(ex, v);
			s.amp__high = (float)r.high;
			ex.trace("high=%g", r.high);
			break;
		}
		case 6: {
			float const v[] = {0, 1000, nan_};
			float f = pick(ex, v);
			r.override_ = f;
			s.amp__override = f;
			ex.trace("override=%g", f);
			break;
		}
		case 7:
			r.enable = !r.enable;
			a.enable(r.enable);
			ex.trace("enable=%d", r.enable);
			break;
		}
		if(a.enabled() != r.enable || s.amp__enable.get() != r.enable)
			ex.fail("enabled", "enabled() is wrong");
		expect(ex, "stored input", s.amp__input.get(), x);
		expect(ex, "stored output", s.amp__output.get(), out);
		expect(ex, "output()", a.output(), out);
		expect(ex, "input()", a.input(), x);
		expect(ex, "gain()", a.gain(), r.gain);
		expect(ex, "offset()", a.offset(), r.offset);
		expect(ex, "low()", a.low(), r.low);
		expect(ex, "high()", a.high(), r.high);
		expect(ex, "override()", a.override_(), r.override_);
	}
}

// Subsets of the fields, and other types.
void amps(Explorer& ex, int depth)
{
	Store s;
	int const kind = ex.shardChoose(4);
	AmpRef r;
	r.offset = 0;
	double const xs[] = {1, -30, 0, 100, 7};
	constexpr auto o0 = stored::Amplifier<Store>::objects("/small amp/");
	constexpr auto o1 = stored::Amplifier<Store>::objects<'g', 'O'>("/small amp/");
	constexpr auto o2 = stored::Amplifier<Store, 0, double>::objects<'g'>("/double amp/");
	constexpr auto o3 = stored::Amplifier<Store, 0, int32_t>::objects<'I', 'e', 'g', 'o', 'l', 'h', 'O'>("/int amp/");
	stored::Amplifier<Store, o0.flags()> a0;
	a0 = stored::Amplifier<Store, o0.flags()>{o0, s};
	stored::Amplifier<Store, o1.flags()> a1{o1, s};
	stored::Amplifier<Store, o2.flags(), double> a2{o2, s};
	stored::Amplifier<Store, o3.flags(), int32_t> a3{o3, s};
	double out = 0;
	if(kind <= 1)
		r.gain = 3.5;
	else if(kind == 2)
		r.gain = -3;
	else {
		r.gain = 2;
		r.offset = 1;
		r.low = -100;
		r.high = 100;
	}
	for(int i = 0; i < depth; i++) {
		switch(ex.choose(kind == 3 ? 6 : kind == 2 ? 3 : 4)) {
		case 0: {
			double x = pick(ex, xs);
			ex.trace("%d: amp(%g)", kind, x);
			out = r(x);
			double y = kind == 0 ? a0((float)x) : kind == 1 ? a1((float)x) : kind == 2 ? a2(x) : a3((int32_t)x);
			expect(ex, "returned value", y, out);
			break;
		}
		case 1: {
			double const v[] = {-2, 1, 0};
			r.gain = pick(ex, v);
			ex.trace("gain=%g", r.gain);
			if(kind <= 1)
				s.small_amp__gain = (float)r.gain;
			else if(kind == 2)
				s.double_amp__gain = r.gain;
			else
				s.int_amp__gain = (int32_t)r.gain;
			break;
		}
		case 2: {
			// When the input isn't stored, it is 0.
			ex.trace("amp()");
			double y = kind == 0 ? a0() : kind == 1 ? a1() : kind == 2 ? a2() : a3();
			expect(ex, "returned value", y, out = r(kind == 3 ? s.int_amp__input.get() : 0));
			break;
		}
		case 3:
			if(kind <= 1) {
				float const v[] = {0, 5, nan_};
				float f = pick(ex, v);
				ex.trace("override=%g", f);
				s.small_amp__override = f;
				if(kind == 0)
					r.override_ = f;
			} else {
				r.enable = !r.enable;
				ex.trace("enable=%d", r.enable);
				a3.enable(r.enable);
			}
			break;
		case 4:
			r.high = 10;
			s.int_amp__high = 10;
			ex.trace("high=10");
			break;
		case 5:
			r.offset = -9;
			s.int_amp__offset = -9;
			ex.trace("offset=-9");
			break;
		}
		if(kind <= 1)
			expect(ex, "stored output", s.small_amp__output.get(), out);
		else if(kind == 3)
			expect(ex, "stored output", s.int_amp__output.get(), out);
	}
}

///////////////////////////////////////////////////////////////////////////////
// Pins

bool pinRef(int override_, bool v)
{
	switch(override_) {
	case 0:
		return false;
	case 1:
		return true;
	case 2:
		return !v;
	default:
		return v;
	}
}

template <typename Base>
class MyPinIn : public Base {
public:
	using Base::Base;
	using Base::operator();
	bool hw = false;
	bool pin() const noexcept final
	{
		return hw;
	}
};

template <typename Base>
class MyPinOut : public Base {
public:
	using Base::Base;
	bool hw = false;
	int sets = 0;
	using Base::pin;
	void pin(bool v) noexcept final
	{
		hw = v;
		sets++;
	}
};

void pinIn(Explorer& ex, int depth)
{
	Store s;
	int const kind = ex.choose(4);
	constexpr auto o0 = stored::PinIn<Store>::objects("/pin in/");
	constexpr auto o1 = stored::PinIn<Store>::objects<'F'>("/pin in o/");
	constexpr auto o2 = stored::PinIn<Store>::objects<'p'>("/pin in p/");
	stored::PinIn<Store, o0.flags()> p0{o0, s};
	stored::PinIn<Store, o1.flags()> p1{o1, s};
	stored::PinIn<Store, o2.flags()> p2{o2, s};
	MyPinIn<stored::PinIn<Store, o0.flags()>> p3{o0, s};
	int ov = -1;
	bool hw = false, last = false;
	int8_t const ovs[] = {-1, 0, 1, 2, 3, -128};
	for(int i = 0; i < depth; i++) {
		switch(ex.choose(5)) {
		case 0:
			hw = !hw;
			s.pinValue = hw;
			p3.hw = hw;
			ex.trace("%d: pin=%d", kind, hw);
			break;
		case 1: {
			int8_t v = pick(ex, ovs);
			ex.trace("override=%d", v);
			if(kind == 0 || kind == 3)
				s.pin_in__override = v;
			else
				s.pin_in_o__override = v;
			ov = kind == 2 ? -1 : v;
			break;
		}
		case 2: {
			bool h = kind == 1 ? false : hw;
			bool g = kind == 0 ? p0() : kind == 1 ? p1() : kind == 2 ? p2() : p3();
			expect(ex, "pin()", g, last = pinRef(ov, h));
			break;
		}
		case 3: {
			bool v = ex.flip();
			bool g = kind == 0 ? p0(v) : kind == 1 ? p1(v) : kind == 2 ? p2(v) : p3(v);
			ex.trace("pin(%d)", v);
			expect(ex, "pin(value)", g, last = pinRef(ov, v));
			break;
		}
		case 4:
			// The last computed input, or compute it when it isn't stored.
			if(kind == 0 || kind == 3)
				expect(ex, "input()", kind == 0 ? p0.input() : p3.input(), last);
			else
				expect(ex, "input()", kind == 1 ? p1.input() : p2.input(), pinRef(ov, kind == 1 ? false : hw));
			break;
		}
		if(kind == 0 || kind == 3)
			expect(ex, "stored input", s.pin_in__input.get(), last);
	}
}

void pinOut(Explorer& ex, int depth)
{
	Store s;
	int const kind = ex.choose(3);
	constexpr auto o0 = stored::PinOut<Store>::objects("/pin out/");
	constexpr auto o1 = stored::PinOut<Store>::objects<'o'>("/pin out o/");
	stored::PinOut<Store, o0.flags()> p0{o0, s};
	stored::PinOut<Store, o1.flags()> p1{o1, s};
	MyPinOut<stored::PinOut<Store, o0.flags()>> p2{o0, s};
	int ov = -1;
	bool out = false, hw = false;
	int sets = 0;
	int8_t const ovs[] = {-1, 0, 1, 2, 3, -128};
	for(int i = 0; i < depth; i++) {
		switch(ex.choose(4)) {
		case 0: {
			ov = pick(ex, ovs);
			ex.trace("%d: override=%d", kind, ov);
			kind == 0 ? p0.override_((int8_t)ov) : kind == 1 ? p1.override_((int8_t)ov) : p2.override_((int8_t)ov);
			hw = pinRef(ov, out);
			sets++;
			break;
		}
		case 1: {
			out = ex.flip();
			ex.trace("pin(%d)", out);
			bool g = kind == 0 ? p0(out) : kind == 1 ? p1(out) : p2(out);
			hw = pinRef(ov, out);
			sets++;
			expect(ex, "pin(value)", g, hw);
			break;
		}
		case 2: {
			ex.trace("pin()");
			bool g = kind == 0 ? p0() : kind == 1 ? p1() : p2();
			hw = pinRef(ov, out);
			sets++;
			expect(ex, "pin()", g, hw);
			break;
		}
		case 3:
			out = !out;
			ex.trace("output=%d", out);
			if(kind == 1)
				s.pin_out_o__output = out;
			else
				s.pin_out__output = out;
			break;
		}
		expect(ex, "stored output", kind == 1 ? s.pin_out_o__output.get() : s.pin_out__output.get(), out);
		expect(ex, "override_()", kind == 0 ? p0.override_() : kind == 1 ? p1.override_() : p2.override_(), ov);
		if(kind != 1 && sets) {
			expect(ex, "hardware pin", kind == 0 ? s.pinValue : p2.hw, hw);
			if(kind == 0 ? !s.pinSets : !p2.sets)
				ex.fail("pin", "the pin is not set");
		}
	}
}

///////////////////////////////////////////////////////////////////////////////
// PID

struct PidRef {
	double f = 8, Kp = 1, Ti = inf, Td = 0, Kff = 0, sp = 0, ilow = -inf, ihigh = inf, low = -inf, high = inf,
	       emax = inf, override_ = nan_;
	bool enable = true, reset = false;
	double kp_ = 0;
	double Ki = 0, Kd = 0, integral = 0, stored = 0, yprev = 0, u = 0;
	bool first = true;

	double operator()(double y)
	{
		if(!std::isnan(override_))
			return override_;
		if(!enable)
			return u;
		double e = sp - y;
		e = std::max(-emax, std::min(emax, e));
		if(first || reset) {
			double dt = 1 / f;
			Ki = Kd = 0;
			if(f > 0) {
				Ki = Ti != 0 ? Kp * dt / Ti : 0;
				Kd = -Kp * Td / dt;
			}
			yprev = y;
			integral = stored;
			first = reset = false;
		}
		double v = Kp * e + integral + Kff * sp;
		double di = Ki * e;
		// Windup prevention.
		if((v >= low || di > 0) && (v <= high || di < 0)) {
			double i = std::max(ilow, std::min(ihigh, integral + di));
			v += i - integral;
			stored = integral = i;
		}
		if(Kd != 0) {
			v += Kd * (y - yprev);
			yprev = y;
		}
		return u = std::max(low, std::min(high, v));
	}
};

void pid(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::PID<Store>::objects("/pid/");
	stored::PID<Store, o.flags()> p{o, s};
	PidRef r;

	struct Conf {
		double Kp, Ti, Td, Kff;
	};
	Conf const confs[] = {{1, inf, 0, 0},	   {2, 0.5, 0, 0},    {-2, 0.25, 0, 0}, {1, 0, 0.25, 0}, {2, 1, 0.5, 0},
			      {0.5, 0.25, 0, 1.5}, {-1, 1, 0.25, -1}, {4, 0.5, 0.125, 0.5}};
	Conf c = shardPick(ex, confs);
	s.pid__Kp = (float)(r.Kp = c.Kp);
	s.pid__Ti_s = (float)(r.Ti = c.Ti);
	s.pid__Td_s = (float)(r.Td = c.Td);
	s.pid__Kff = (float)(r.Kff = c.Kff);
	switch(ex.choose(6)) {
	case 0:
		break;
	case 1:
		s.pid__low = (float)(r.low = -1);
		s.pid__high = (float)(r.high = 2);
		break;
	case 2:
		s.pid__int_low = (float)(r.ilow = -0.5);
		s.pid__int_high = (float)(r.ihigh = 0.75);
		s.pid__high = (float)(r.high = 1.5);
		break;
	case 3:
		s.pid__error_max = (float)(r.emax = 1);
		s.pid__low = (float)(r.low = 0);
		break;
	case 4:
		s.pid__int = (float)(r.stored = 1.5);
		s.pid__low = (float)(r.low = -3);
		break;
	case 5:
		s.freq = 0;
		r.f = 0;
		break;
	}
	ex.trace("Kp=%g Ti=%g Td=%g Kff=%g low=%g high=%g int low=%g int high=%g error max=%g int=%g f=%g", r.Kp, r.Ti, r.Td, r.Kff,
		 r.low, r.high, r.ilow, r.ihigh, r.emax, r.stored, r.f);
	s.pid__setpoint = (float)(r.sp = 1);
	double y = 0, u = 0;
	double const ys[] = {0, 1, 0.5, 3, -2};
	for(int i = 0; i < depth; i++) {
		int op = ex.choose(7);
		bool ran = false;
		switch(op) {
		case 0:
			y = pick(ex, ys);
			ex.trace("pid(%g)", y);
			expect(ex, "u", p((float)y), u = r(y), 1e-4);
			ran = true;
			break;
		case 1:
			y = pick(ex, ys);
			ex.trace("y=%g pid()x2", y);
			s.pid__y = (float)y;
			expect(ex, "u", p(), r(y), 1e-4);
			expect(ex, "u", p(), u = r(y), 1e-4);
			ran = true;
			break;
		case 2: {
			double const v[] = {-1, 0, 1};
			r.sp = pick(ex, v);
			s.pid__setpoint = (float)r.sp;
			ex.trace("setpoint=%g", r.sp);
			break;
		}
		case 3: {
			// Change of parameters.
			bool reset = ex.flip();
			switch(ex.choose(4)) {
			case 0:
				s.pid__Ti_s = (float)(r.Ti = r.Ti == 2 ? 0.25 : 2);
				break;
			case 1:
				s.pid__Td_s = (float)(r.Td = r.Td == 0.25 ? 0 : 0.25);
				break;
			case 2:
				s.pid__int = (float)(r.stored = 0.25);
				break;
			case 3:
				s.freq = (float)(r.f = 4);
				break;
			}
			ex.trace("Ti=%g Td=%g int=%g f=%g reset=%d", r.Ti, r.Td, r.stored, r.f, reset);
			if(reset)
				s.pid__reset = r.reset = true;
			break;
		}
		case 4: {
			float const v[] = {0, 50};
			float f = std::isnan(r.override_) ? pick(ex, v) : nan_;
			r.override_ = f;
			s.pid__override = f;
			ex.trace("override=%g", f);
			break;
		}
		case 5:
			r.enable = !r.enable;
			p.enable(r.enable);
			ex.trace("enable=%d", r.enable);
			break;
		case 6:
			r.low = -1;
			r.high = r.high == 2 ? 0.5 : 2;
			s.pid__low = (float)r.low;
			s.pid__high = (float)r.high;
			ex.trace("low=%g high=%g", r.low, r.high);
			break;
		}
		if(ran && (r.enable || !std::isnan(r.override_)))
			expect(ex, "stored u", s.pid__u.get(), u, 1e-4);
		expect(ex, "u()", p.u(), std::isnan(r.override_) ? r.u : r.override_, 1e-4);
		expect(ex, "stored int", s.pid__int.get(), r.stored, 1e-4);
		expect(ex, "stored y", s.pid__y.get(), ran ? y : s.pid__y.get());
		expect(ex, "Ki", p.Ki(), r.Ki, 1e-4);
		expect(ex, "Kd", p.Kd(), r.Kd, 1e-4);
		expect(ex, "reset", s.pid__reset.get(), r.reset);
		// Without epsilon, it is always healthy.
		if(!p.isHealthy())
			ex.fail("healthy", "not healthy, although there is no epsilon");
	}
	// Numerical stability
	double const eps[] = {1, 0.0009765625, 1e-30};
	double e = pick(ex, eps);
	s.pid__epsilon = (float)e;
	if(r.Ki != 0) {
		float i = (float)std::fabs(r.integral);
		float d = (float)(e * std::fabs(r.Ki));
		bool healthy = i - d < i;
		expect(ex, "isHealthy()", p.isHealthy(), healthy);
	} else
		expect(ex, "isHealthy()", p.isHealthy(), true);
}

void smallPid(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::PID<Store>::objects<'f', 's', 'p', 'i', 'd'>("/small pid/");
	stored::PID<Store, o.flags()> p{o, s};
	PidRef r;
	double const kps[] = {1, -2};
	double const tis[] = {inf, 0.5, 2};
	double const tds[] = {0, 0.25};
	s.small_pid__Kp = (float)(r.Kp = pick(ex, kps));
	s.small_pid__Ti_s = (float)(r.Ti = pick(ex, tis));
	s.small_pid__Td_s = (float)(r.Td = pick(ex, tds));
	double const ys[] = {0, 1, 0.5, 3, -2};
	for(int i = 0; i < depth; i++) {
		if(ex.flip()) {
			double y = pick(ex, ys);
			ex.trace("pid(%g)", y);
			expect(ex, "u", p((float)y), r(y), 1e-4);
		} else {
			double const v[] = {-1, 0, 1};
			r.sp = pick(ex, v);
			s.small_pid__setpoint = (float)r.sp;
			ex.trace("setpoint=%g", r.sp);
		}
		expect(ex, "u()", p.u(), r.u, 1e-4);
		if(!p.isHealthy())
			ex.fail("healthy", "not healthy, although there is no epsilon");
	}
}

///////////////////////////////////////////////////////////////////////////////
// Waves

struct WaveRef {
	double sf = 8, A = 1, f = 0.25, phase = 0, offset = 0, duty = 0.5, override_ = nan_, t = 0;
	bool enable = true;

	void tick()
	{
		if(f > 0 && sf > 0)
			t = std::fmod(t + 1 / sf, 1 / f);
	}
	double sine()
	{
		double y = override_;
		if(std::isnan(y))
			y = (enable ? A * std::sin(2 * Pi * (f > 0 ? f : 0) * t + phase) : 0) + offset;
		tick();
		return y;
	}
	double pulse()
	{
		double y = override_;
		if(std::isnan(y)) {
			double x = f > 0 ? t * f + phase / (2 * Pi) : 0;
			x -= std::floor(x);
			y = enable && f > 0 && x < duty ? A : 0;
		}
		tick();
		return y;
	}
};

void sine(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::Sine<Store>::objects("/sine/");
	stored::Sine<Store, o.flags()> w{o, s};
	WaveRef r;
	double out = 0;
	for(int i = 0; i < depth; i++) {
		int op = i ? ex.choose(8) : ex.shardChoose(8);
		switch(op) {
		case 0:
		case 1: {
			int n = op ? 9 : 1;
			ex.trace("%d ticks", n);
			while(n-- > 0)
				expect(ex, "output", w(), out = r.sine(), 1e-4);
			break;
		}
		case 2: {
			double const v[] = {-3, 0};
			s.sine__amplitude = (float)(r.A = pick(ex, v));
			ex.trace("amplitude=%g", r.A);
			break;
		}
		case 3: {
			double const v[] = {1, 0.5, 0, 0.125};
			s.sine__frequency_Hz = (float)(r.f = pick(ex, v));
			ex.trace("frequency=%g", r.f);
			break;
		}
		case 4: {
			double const v[] = {1, -2.5, 7};
			s.sine__phase_rad = (float)(r.phase = pick(ex, v));
			ex.trace("phase=%g", r.phase);
			break;
		}
		case 5:
			s.sine__offset = (float)(r.offset = r.offset == 0 ? 0.5 : 0);
			ex.trace("offset=%g", r.offset);
			break;
		case 6: {
			float v[] = {0, 5};
			float f = std::isnan(r.override_) ? pick(ex, v) : nan_;
			r.override_ = f;
			s.sine__override = f;
			ex.trace("override=%g", f);
			break;
		}
		case 7:
			if(ex.flip()) {
				w.enable(r.enable = !r.enable);
				ex.trace("enable=%d", r.enable);
			} else {
				s.freq = (float)(r.sf = r.sf == 8 ? 0 : 8);
				ex.trace("sample frequency=%g", r.sf);
			}
			break;
		}
		expect(ex, "stored output", s.sine__output.get(), out, 1e-4);
		if(!w.isHealthy())
			ex.fail("healthy", "not healthy");
	}
}

void pulse(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::PulseWave<Store>::objects("/pulse/");
	stored::PulseWave<Store, o.flags()> w{o, s};
	WaveRef r;
	r.f = 1;
	double out = 0;
	for(int i = 0; i < depth; i++) {
		int op = i ? ex.choose(8) : ex.shardChoose(8);
		switch(op) {
		case 0:
		case 1: {
			int n = op ? 9 : 1;
			ex.trace("%d ticks", n);
			while(n-- > 0)
				expect(ex, "output", w(), out = r.pulse());
			break;
		}
		case 2: {
			double const v[] = {-3, 0};
			s.pulse__amplitude = (float)(r.A = pick(ex, v));
			ex.trace("amplitude=%g", r.A);
			break;
		}
		case 3: {
			double const v[] = {2, 0.5, 0};
			s.pulse__frequency_Hz = (float)(r.f = pick(ex, v));
			ex.trace("frequency=%g", r.f);
			break;
		}
		case 4: {
			// Not close to an edge at the sampling moments.
			double const v[] = {0.1, -1.37, 3.3, -7};
			s.pulse__phase_rad = (float)(r.phase = pick(ex, v));
			ex.trace("phase=%g", r.phase);
			break;
		}
		case 5: {
			double const v[] = {0.25, 1, 0};
			s.pulse__duty_cycle = (float)(r.duty = pick(ex, v));
			ex.trace("duty cycle=%g", r.duty);
			break;
		}
		case 6: {
			float v[] = {0, 5};
			float f = std::isnan(r.override_) ? pick(ex, v) : nan_;
			r.override_ = f;
			s.pulse__override = f;
			ex.trace("override=%g", f);
			break;
		}
		case 7:
			if(ex.flip()) {
				w.enable(r.enable = !r.enable);
				ex.trace("enable=%d", r.enable);
			} else {
				s.freq = (float)(r.sf = r.sf == 8 ? 0 : 8);
				ex.trace("sample frequency=%g", r.sf);
			}
			break;
		}
		expect(ex, "stored output", s.pulse__output.get(), out);
		if(!w.isHealthy())
			ex.fail("healthy", "not healthy");
	}
}

void smallPulse(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::PulseWave<Store>::objects<'s', 'f'>("/small pulse/");
	stored::PulseWave<Store, o.flags()> w{o, s};
	WaveRef r;
	r.f = 1;
	double const v[] = {2, 1, 0.5, 0};
	for(int i = 0; i < depth; i++) {
		if(!ex.flip()) {
			int n = ex.flip() ? 5 : 1;
			ex.trace("%d ticks", n);
			while(n-- > 0)
				expect(ex, "output", w(), r.pulse());
		} else {
			s.small_pulse__frequency_Hz = (float)(r.f = pick(ex, v));
			ex.trace("frequency=%g", r.f);
		}
	}
}

///////////////////////////////////////////////////////////////////////////////
// Filters

struct FilterRef {
	bool low;
	double sf = 8, fc = 1, override_ = nan_;
	bool enable = true, reset = false, first = true;
	double alpha = 0, x1 = 0, y1 = 0;

	double operator()(double x)
	{
		double y;
		if(!std::isnan(override_)) {
			y = override_;
			y1 = x;
		} else if(!enable) {
			y1 = y = x;
		} else {
			if(first || reset) {
				if(first)
					y1 = x1 = x;
				first = reset = false;
				double rc = fc > 0 ? 1 / (2 * Pi * fc) : 0;
				double dt = sf > 0 ? 1 / sf : 0;
				alpha = low ? (dt > 0 ? dt / (rc + dt) : 1) : (rc > 0 ? rc / (rc + dt) : 1);
			}
			if(low)
				y = y1 + alpha * (x - y1);
			else
				y = alpha * (y1 + x - x1);
			y1 = y;
		}
		x1 = x;
		return y;
	}
};

template <bool Low>
void filter(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::FirstOrderFilter<Store, Low>::objects("/filter/");
	stored::FirstOrderFilter<Store, Low, o.flags()> f{o, s};
	FilterRef r;
	r.low = Low;
	double out = 0;
	double const xs[] = {1, 0, -2, 5};
	for(int i = 0; i < depth; i++) {
		int op = i ? ex.choose(6) : ex.shardChoose(6);
		switch(op) {
		case 0: {
			double x = pick(ex, xs);
			int n = ex.flip() ? 10 : 1;
			ex.trace("filter(%g) x%d", x, n);
			while(n-- > 0)
				expect(ex, "output", f((float)x), out = r(x), 1e-4);
			expect(ex, "stored input", s.filter__input.get(), x);
			break;
		}
		case 1: {
			double x = pick(ex, xs);
			s.filter__input = (float)x;
			ex.trace("input=%g filter()", x);
			expect(ex, "output", f(), out = r(x), 1e-4);
			break;
		}
		case 2: {
			double const v[] = {4, 0.25, 0};
			s.filter__cutoff_frequency_Hz = (float)(r.fc = pick(ex, v));
			if(ex.flip())
				s.filter__reset = r.reset = true;
			ex.trace("cutoff=%g reset=%d", r.fc, r.reset);
			break;
		}
		case 3: {
			float v[] = {0, 5};
			float g = std::isnan(r.override_) ? pick(ex, v) : nan_;
			r.override_ = g;
			s.filter__override = g;
			ex.trace("override=%g", g);
			break;
		}
		case 4:
			f.enable(r.enable = !r.enable);
			ex.trace("enable=%d", r.enable);
			break;
		case 5:
			s.freq = (float)(r.sf = r.sf == 8 ? 2 : r.sf == 2 ? 0 : 8);
			if(ex.flip())
				s.filter__reset = r.reset = true;
			ex.trace("sample frequency=%g reset=%d", r.sf, r.reset);
			break;
		}
		expect(ex, "stored output", s.filter__output.get(), out, 1e-4);
		expect(ex, "reset", s.filter__reset.get(), r.reset);
	}
}

template <bool Low>
void smallFilter(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::FirstOrderFilter<Store, Low>::template objects<'s', 'c'>("/small filter/");
	stored::FirstOrderFilter<Store, Low, o.flags()> f{o, s};
	FilterRef r;
	r.low = Low;
	double const fcs[] = {1, 8, 0.125};
	s.small_filter__cutoff_frequency_Hz = (float)(r.fc = pick(ex, fcs));
	double const xs[] = {1, 0, -2, 5, 0.25};
	for(int i = 0; i < depth; i++) {
		double x = pick(ex, xs);
		ex.trace("filter(%g)", x);
		expect(ex, "output", f((float)x), r(x), 1e-4);
	}
}

///////////////////////////////////////////////////////////////////////////////
// Ramp

struct RampCheck {
	double dt = 0.125;
	double sl = inf, al = inf; // active limits
	double x = 0, v = 0;	   // per tick
	double vAlt = 0;
	bool ramping() const
	{
		return !(std::isinf(sl) && std::isinf(al));
	}
	// One tick gave y, while going to target.
	void tick(Explorer& ex, double y, double target, bool changed)
	{
		double nv = y - x;
		double eps = 1e-4 * (1 + std::fabs(y));
		if(!ramping()) {
			expect(ex, "output without limits", y, target);
		} else {
			double vmax = sl * dt;
			double adt = al * dt * dt;
			// The acceleration per tick never exceeds the speed limit.
			double step = std::min(adt, vmax);
			// A lowered limit is reached by decelerating.
			double lim = vmax;
			if(std::fabs(v) > vmax)
				lim = std::max(vmax, std::fabs(v) - (changed ? 0 : step * 0.5));
			if(std::fabs(nv) > lim + eps)
				ex.fail("speed limit", mc::fmt("moved from %g to %g in %g s (before: %g), while the speed limit is %g", x, y, dt,
							       v / dt, sl));
			// Within one step of the target, it just stops. A new limit is rounded to whole steps.
			double slack = std::fabs(target - x) <= step * 1.001 || changed ? 2 : 1;
			if(std::fabs(nv - v) > adt * slack + eps && std::fabs(nv - vAlt) > adt * slack + eps)
				ex.fail("acceleration limit",
					mc::fmt("speed changed from %g to %g in %g s at %g, while the acceleration limit is %g", v / dt, nv / dt, dt,
						x, al));
		}
		x = y;
		v = nv;
		// When at the target, it may have been stopped.
		vAlt = ramping() && std::fabs(y - target) < eps_(y) && std::fabs(nv) <= std::min(al * dt * dt, sl * dt) * 1.001 ? 0 : v;
	}
	static double eps_(double y)
	{
		return 1e-5 * (1 + std::fabs(y));
	}
};

void ramp(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::Ramp<Store>::objects("/ramp/");
	stored::Ramp<Store, o.flags()> r{o, s};
	RampCheck c;
	double const sls[] = {1, 4, inf};
	double const als[] = {2, 1.5, 8, 50, inf};
	double sl = shardPick(ex, sls), al = pick(ex, als);
	s.ramp__speed_limit = (float)(c.sl = sl);
	s.ramp__acceleration_limit = (float)(c.al = al);
	ex.trace("speed %g acceleration %g", sl, al);
	bool enable = true, reset = false;
	double target = 0;
	float override_ = nan_;
	double out = 0;
	bool straight = true; // one move, from standstill
	bool wasFree = false;
	bool computed = false; // The limits apply since the first run.
	bool free = false;    // the speed may be anything, when just enabled
	auto run = [&](bool viaStore) {
		float y;
		if(viaStore) {
			s.ramp__input = (float)target;
			y = r();
		} else
			y = r((float)target);
		expect(ex, "stored input", s.ramp__input.get(), target);
		out = y;
		if(!std::isnan(override_)) {
			expect(ex, "overridden output", y, override_);
			c.v = c.vAlt = 0;
			return;
		}
		bool changed = reset;
		if(reset || !computed) {
			computed = true;
			if(!c.ramping())
				c.v = c.vAlt = 0; // It jumped up to here.
			c.sl = sl;
			c.al = al;
			reset = false;
		}
		if(!enable) {
			expect(ex, "output while disabled", y, target);
			c.v = c.vAlt = y - c.x;
			c.x = y;
			free = wasFree = true;
			return;
		}
		double before = c.x;
		if(free) {
			// The speed before was not limited.
			c.v = c.vAlt = y - c.x;
			c.x = y;
			free = false;
		} else
			c.tick(ex, y, target, changed);
		if(straight && (target - before) * (target - y) < -1e-5)
			ex.fail("overshoot", mc::fmt("moved from %g to %g, while the target is %g", before, y, target));
	};
	double const ts[] = {1, -2, 0.3, 10};
	bool started = false;
	for(int i = 0; i < depth; i++) {
		switch(ex.choose(6)) {
		case 0: {
			double t = pick(ex, ts);
			int const ns[] = {1, 3, 10};
			int n = pick(ex, ns);
			if(started && t != target)
				straight = false;
			target = t;
			started = true;
			ex.trace("ramp(%g) x%d", t, n);
			for(int k = 0; k < n; k++) {
				run(false);
				ex.trace("-> %g", out);
			}
			break;
		}
		case 1:
			run(true);
			ex.trace("ramp() -> %g", out);
			break;
		case 2:
			sl = sl == 1 ? 4 : sl == 4 ? inf : 1;
			s.ramp__speed_limit = (float)sl;
			if(ex.flip())
				s.ramp__reset = reset = true;
			straight = false;
			ex.trace("speed limit=%g reset=%d", sl, reset);
			break;
		case 3:
			al = al == 2 ? 8 : al == 8 ? inf : 2;
			s.ramp__acceleration_limit = (float)al;
			if(ex.flip())
				s.ramp__reset = reset = true;
			straight = false;
			ex.trace("acceleration limit=%g reset=%d", al, reset);
			break;
		case 4:
			override_ = std::isnan(override_) ? 3 : nan_;
			s.ramp__override = override_;
			straight = false;
			ex.trace("override=%g", override_);
			break;
		case 5:
			r.enable(enable = !enable);
			straight = false;
			ex.trace("enable=%d", enable);
			break;
		}
		expect(ex, "stored output", s.ramp__output.get(), out, 1e-4);
		expect(ex, "reset", s.ramp__reset.get(), reset);
	}
	// Eventually, it gets to the target.
	if(!std::isnan(override_))
		s.ramp__override = override_ = nan_;
	if(!enable)
		r.enable(enable = true);
	int n = 0;
	int const max = wasFree ? 100000 : 5000; // Jumps give high speeds.
	for(; n < max; n++) {
		run(false);
		if(std::fabs(out - target) < 1e-5 && std::fabs(c.v) < 1e-5)
			break;
	}
	if(n == max)
		ex.fail("target", mc::fmt("did not get to %g, but is at %g, speed %g", target, c.x, c.v / c.dt));
	// ...and stays there.
	straight = true;
	for(n = 0; n < 3; n++) {
		run(false);
		expect(ex, "output at the target", out, target);
	}
}

void smallRamp(Explorer& ex, int depth)
{
	Store s;
	constexpr auto o = stored::Ramp<Store>::objects<'s', 'v', 'a'>("/small ramp/");
	stored::Ramp<Store, o.flags()> r{o, s};
	RampCheck c;
	double const fs[] = {8, 1, 32, 100};
	double const sls[] = {1, 3.7, 20};
	double const als[] = {2, 0.7, 9};
	s.freq = (float)shardPick(ex, fs);
	c.dt = 1 / s.freq;
	s.small_ramp__speed_limit = (float)(c.sl = pick(ex, sls));
	s.small_ramp__acceleration_limit = (float)(c.al = pick(ex, als));
	double const ts[] = {1, -2, 0.3, 10};
	ex.trace("f=%g speed %g acceleration %g", 1 / c.dt, c.sl, c.al);
	double target = 0;
	double out = 0;
	for(int i = 0; i < depth; i++) {
		int const ns[] = {1, 2, 7, 50};
		int n = pick(ex, ns);
		target = pick(ex, ts);
		ex.trace("ramp(%g) x%d", target, n);
		for(int k = 0; k < n; k++) {
			double before = c.x;
			out = r((float)target);
			ex.trace("-> %g", out);
			c.tick(ex, out, target, false);
			if(!i && (target - before) * (target - out) < -1e-5)
				ex.fail("overshoot", mc::fmt("moved from %g to %g, while the target is %g", before, out, target));
		}
	}
	int n = 0;
	for(; n < 20000; n++) {
		out = r((float)target);
		c.tick(ex, out, target, false);
		if(std::fabs(out - target) < 1e-5 && std::fabs(c.v) < 1e-5)
			break;
	}
	if(n == 20000)
		ex.fail("target", mc::fmt("did not get to %g, but is at %g, speed %g", target, c.x, c.v / c.dt));
	if(!r.isHealthy())
		ex.fail("healthy", "not healthy");
}

} // namespace

void mc::setup(bool thorough)
{
	int x = thorough && !mc::slow ? 1 : 0;
	int s = mc::slow ? 1 : 0;
#define ADD(name, shards, depth, f)                                                                                       \
	mc::add(name, mc::fmt("all sequences of %d operations", (depth) + x - s), shards,                                \
		[=](Explorer& ex) { f(ex, (depth) + x - s); })
	ADD("amplifier", 8, 5, amp);
	ADD("amplifiers", 4, 7, amps);
	ADD("pin-in", 1, 6, pinIn);
	ADD("pin-out", 1, 6, pinOut);
	ADD("pid", 8, 4, pid);
	ADD("pid-small", 1, 6, smallPid);
	ADD("sine", 8, 5, sine);
	ADD("pulse", 8, 5, pulse);
	ADD("pulse-small", 1, 8, smallPulse);
	ADD("lowpass", 6, 5, filter<true>);
	ADD("highpass", 6, 5, filter<false>);
	ADD("lowpass-small", 1, 7, smallFilter<true>);
	ADD("highpass-small", 1, 7, smallFilter<false>);
	ADD("ramp", 3, 4, ramp);
	ADD("ramp-small", 4, 3, smallRamp);
}

int main(int argc, char** argv)
{
	return mc::main_(argc, argv);
}
