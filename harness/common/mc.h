// Stateless, exhaustive explorer for real code.
//
// A scenario is a deterministic function of a sequence of choices.  The
// explorer enumerates *all* choice sequences (depth first), optionally limited
// by a deviation bound: a choice that departs from its default (0) may be
// declared to cost budget.  Every execution runs the real implementation from
// scratch and is judged against a reference model by the scenario.
#pragma once

#ifdef NDEBUG
#  error "harnesses need assertions"
#endif

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

#ifdef __SANITIZE_ADDRESS__
static constexpr bool slow = true; // instrumented build
#else
static constexpr bool slow = false;
#endif

struct Violation {};
struct Prune {};

static inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h ^= h >> 33;
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}

static inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
	unsigned char const* c = (unsigned char const*)p;
	for(size_t i = 0; i < n; i++) {
		h ^= c[i];
		h *= 0x100000001b3ull;
	}
	return mix(h, n);
}

static inline uint64_t hashStr(std::string const& s)
{
	return hashBytes(s.data(), s.size());
}

static inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
static inline std::string vfmt(char const* f, va_list a)
{
	char buf[4096];
	int n = vsnprintf(buf, sizeof(buf), f, a);
	if(n < 0)
		return "";
	return std::string(buf, (size_t)(n < (int)sizeof(buf) ? n : (int)sizeof(buf) - 1));
}
static inline std::string fmt(char const* f, ...)
{
	va_list a;
	va_start(a, f);
	std::string s = vfmt(f, a);
	va_end(a);
	return s;
}

static inline std::string esc(void const* p, size_t n, size_t max = 200)
{
	unsigned char const* c = (unsigned char const*)p;
	std::string s = "\"";
	for(size_t i = 0; i < n && i < max; i++) {
		if(c[i] == '"' || c[i] == '\\') {
			s += '\\';
			s += (char)c[i];
		} else if(c[i] >= 0x20 && c[i] < 0x7f)
			s += (char)c[i];
		else
			s += fmt("\\x%02x", c[i]);
	}
	s += "\"";
	if(n > max)
		s += fmt("...(%zu)", n);
	return s;
}
static inline std::string esc(std::string const& s, size_t max = 200)
{
	return esc(s.data(), s.size(), max);
}

static inline std::string jsonEsc(std::string const& in)
{
	std::string s = "\"";
	for(unsigned char c : in) {
		if(c == '"' || c == '\\') {
			s += '\\';
			s += (char)c;
		} else if(c >= 0x20 && c < 0x7f)
			s += (char)c;
		else
			s += fmt("\\u%04x", c);
	}
	return s + "\"";
}

struct Cur { // lives in a shared mapping, survives a crash of this process
	volatile uint64_t execs;
	volatile uint32_t len;
	volatile uint32_t reserved;
	volatile int32_t path[16384];
};

inline int main_(int argc, char** argv);

class Explorer {
public:
	bool thorough = false;
	bool tracing = false;
	int shard = 0;
	int shards = 1;

	// Choose one of n alternatives.
	int choose(int n, bool deviation = false)
	{
		if(n <= 0) {
			fprintf(stderr, "mc: choose(%d)\n", n);
			abort();
		}
		if(n == 1)
			return 0;
		if(deviation && m_budget <= 0)
			return 0;
		bool sharded = m_shardNext;
		m_shardNext = false;
		int c;
		if(m_pos < m_path.size()) {
			c = m_path[m_pos].c;
			if(m_path[m_pos].n != n) {
				if(m_replay && m_path[m_pos].n == -1)
					m_path[m_pos].n = n;
				else {
					fprintf(stderr,
						"mc: nondeterministic scenario: %d options, was %d, at "
						"%zu\n",
						n, m_path[m_pos].n, m_pos);
					_exit(97);
				}
			}
			if(c >= n) {
				fprintf(stderr, "mc: replay choice out of range\n");
				_exit(97);
			}
		} else {
			c = 0;
			int step = 1;
			if(sharded && shards > 1) {
				c = shard;
				step = shards;
				if(c >= n)
					throw Prune();
			}
			if(m_replay)
				step = n;
			m_path.push_back(P{c, n, step});
		}
		setCur(m_pos, c);
		m_pos++;
		if(deviation && c)
			m_budget--;
		return c;
	}
	// The alternatives of this choice are divided over the shards. Only for the first choice.
	int shardChoose(int n)
	{
		if(!m_replay)
			m_shardNext = true;
		int c = n == 1 ? (m_shardNext = false, (shard && !m_replay) ? throw Prune() : 0) : choose(n);
		m_shardNext = false;
		return c;
	}
	int dev(int n)
	{
		return choose(n, true);
	}
	bool flip(bool deviation = false)
	{
		return choose(2, deviation) != 0;
	}
	// Deviations for this execution
	void budget(int b)
	{
		m_budget = b;
	}
	int budget() const
	{
		return m_budget;
	}

	// Returns true when this state was expanded before with at least as much left to do.
	bool seen(uint64_t h, int left)
	{
		h = mix(h, (uint64_t)m_budget + 1000);
		state(h);
		if(m_replay || m_pos < m_prefix)
			return false;
		auto it = m_seen.find(h);
		if(it == m_seen.end()) {
			m_seen.emplace(h, left);
			return false;
		}
		if(it->second >= left) {
			m_pruned++;
			return true;
		}
		it->second = left;
		return false;
	}
	void state(uint64_t h)
	{
		if(m_states.size() < MaxSet)
			m_states.insert(h);
		else
			m_setCapped = true;
	}
	void obs(uint64_t v)
	{
		m_obs = mix(m_obs, v);
	}
	void obs(std::string const& s)
	{
		obs(hashStr(s));
	}
	void step(uint64_t n = 1)
	{
		m_steps += n;
	}

	void trace(char const* f, ...) __attribute__((format(printf, 2, 3)))
	{
		if(!tracing)
			return;
		va_list a;
		va_start(a, f);
		std::string s = vfmt(f, a);
		va_end(a);
		if(m_trace.size() < 20000)
			m_trace += s + "; ";
		if(m_replay && m_verbose)
			fprintf(stderr, "  %s\n", s.c_str());
	}

	// Record a failure, without leaving (safe in callbacks). Key identifies the kind of failure for
	// the known-findings list.
	void note(char const* key, std::string const& msg)
	{
		if(m_known.count(key)) {
			m_knownHit[key]++;
			m_knownSeen = true;
			return;
		}
		if(!m_failed) {
			m_failed = true;
			m_failMsg = std::string(key) + ": " + msg;
		}
	}
	[[noreturn]] void fail(char const* key, std::string const& msg)
	{
		note(key, msg);
		throw Violation();
	}
	bool failed() const
	{
		return m_failed;
	}
	bool replaying() const
	{
		return m_replay;
	}

	// Prune the rest of this execution (not a violation, e.g. equivalent to another one).
	[[noreturn]] void prune()
	{
		throw Prune();
	}

private:
	friend int main_(int, char**);
	struct P {
		int c, n, step;
	};
	static size_t const MaxSet = 6000000;
	std::vector<P> m_path;
	size_t m_pos = 0;
	size_t m_prefix = 0;
	int m_budget = 0;
	bool m_shardNext = false;
	bool m_replay = false;
	bool m_verbose = true;
	bool m_failed = false;
	bool m_knownSeen = false;
	bool m_setCapped = false;
	std::string m_failMsg;
	std::string m_trace;
	uint64_t m_obs = 0;
	uint64_t m_steps = 0;
	uint64_t m_execs = 0;
	uint64_t m_pruned = 0;
	std::unordered_map<uint64_t, int> m_seen;
	std::unordered_set<uint64_t> m_states;
	std::unordered_set<uint64_t> m_outcomes;
	std::set<std::string> m_known;
	std::map<std::string, uint64_t> m_knownHit;
	Cur* m_cur = nullptr;

	void setCur(size_t pos, int c)
	{
		if(m_cur && pos < 16384) {
			m_cur->path[pos] = c;
			m_cur->len = (uint32_t)(pos + 1);
		}
	}

	void one(std::function<void(Explorer&)> const& body)
	{
		m_pos = 0;
		m_budget = 0;
		m_obs = 0x1234;
		m_trace.clear();
		m_knownSeen = false;
		if(m_cur)
			m_cur->len = 0;
		try {
			body(*this);
			m_steps++;
		} catch(Violation&) {
		} catch(Prune&) {
			m_obs = 0;
		}
		m_execs++;
		if(m_cur)
			m_cur->execs = m_execs;
		if(m_obs) {
			if(m_outcomes.size() < MaxSet)
				m_outcomes.insert(m_obs);
			else
				m_setCapped = true;
		}
	}

	bool next()
	{
		while(!m_path.empty()) {
			P& p = m_path.back();
			if(p.c + p.step < p.n) {
				p.c += p.step;
				m_prefix = m_path.size();
				return true;
			}
			m_path.pop_back();
		}
		return false;
	}
};

typedef std::function<void(Explorer&)> Body;

struct Scenario {
	std::string name;
	Body body;
	int shards;	   // number of shards to run this in
	bool quick;	   // part of the quick tier
	std::string bounds; // human readable: alphabet, bound
};

static inline std::vector<Scenario>& scenarios()
{
	static std::vector<Scenario> s;
	return s;
}

static inline void
add(std::string const& name, std::string const& bounds, int shards, Body body, bool quick = true)
{
	scenarios().push_back(Scenario{name, body, shards, quick, bounds});
}

// Set by the harness, before main_(): called with the thorough flag to register scenarios.
void setup(bool thorough);

inline int main_(int argc, char** argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string scn, out, curFile, replay, known;
	bool list = false;
	Explorer ex;
	ex.thorough = false;
	double budget = 0;
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--list")
			list = true;
		else if(a == "--thorough")
			ex.thorough = true;
		else if(a == "--scenario")
			scn = val();
		else if(a == "--shard") {
			std::string v = val();
			sscanf(v.c_str(), "%d/%d", &ex.shard, &ex.shards);
		} else if(a == "--out")
			out = val();
		else if(a == "--cur")
			curFile = val();
		else if(a == "--replay") {
			replay = val();
			ex.m_replay = true;
		} else if(a == "--known") {
			known = val();
			if(!known.empty())
				ex.m_known.insert(known);
		} else if(a == "--budget")
			budget = atof(val().c_str());
		else {
			fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 96;
		}
	}
	setup(ex.thorough);
	if(list) {
		for(auto& s : scenarios())
			if(s.quick || ex.thorough)
				printf("%s\t%d\t%s\n", s.name.c_str(), s.shards, s.bounds.c_str());
		return 0;
	}
	Scenario* sc = nullptr;
	for(auto& s : scenarios())
		if(s.name == scn)
			sc = &s;
	if(!sc) {
		fprintf(stderr, "no scenario %s\n", scn.c_str());
		return 96;
	}
	if(!curFile.empty()) {
		int fd = open(curFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if(fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0) {
			void* p = mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if(p != MAP_FAILED)
				ex.m_cur = (Cur*)p;
		}
		if(fd >= 0)
			close(fd);
	}
	if(ex.m_replay) {
		char const* p = replay.c_str();
		while(*p) {
			char* e;
			long v = strtol(p, &e, 10);
			if(e == p)
				break;
			ex.m_path.push_back(Explorer::P{(int)v, -1, 1});
			p = *e ? e + 1 : e;
		}
		ex.tracing = true;
		ex.one(sc->body);
		if(ex.m_failed) {
			printf("FAIL %s\n", ex.m_failMsg.c_str());
			return 1;
		}
		if(ex.m_knownSeen)
			printf("KNOWN\n");
		printf("PASS\n");
		return 0;
	}

	std::vector<std::string> samples;
	timeval t0, t1;
	gettimeofday(&t0, nullptr);
	bool capped = false;
	uint64_t nextSample = 1;
	bool more = true;
	while(more) {
		ex.tracing = ex.m_execs + 1 == nextSample;
		ex.one(sc->body);
		if(ex.tracing) {
			if(!ex.m_trace.empty() && samples.size() < 6)
				samples.push_back(ex.m_trace.substr(0, 600));
			nextSample = nextSample * 9 + 3;
		}
		if(ex.m_failed)
			break;
		if(budget > 0 && (ex.m_execs & 0xff) == 0) {
			gettimeofday(&t1, nullptr);
			if((double)(t1.tv_sec - t0.tv_sec) > budget) {
				capped = true;
				break;
			}
		}
		more = ex.next();
	}
	gettimeofday(&t1, nullptr);
	double wall = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_usec - t0.tv_usec) / 1e6;

	if(!out.empty()) {
		FILE* f = fopen(out.c_str(), "w");
		if(!f)
			return 96;
		fprintf(f,
			"{\"scenario\":%s,\"shard\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%zu,"
			"\"outcomes\":%zu,\"pruned\":%llu,\"capped\":%s,\"setcapped\":%s,\"wall_s\":%.2f,",
			jsonEsc(scn).c_str(), ex.shard, (unsigned long long)ex.m_execs,
			(unsigned long long)ex.m_steps, ex.m_states.size(), ex.m_outcomes.size(),
			(unsigned long long)ex.m_pruned, capped ? "true" : "false",
			ex.m_setCapped ? "true" : "false", wall);
		fprintf(f, "\"known\":{");
		bool first = true;
		for(auto& k : ex.m_knownHit) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jsonEsc(k.first).c_str(),
				(unsigned long long)k.second);
			first = false;
		}
		fprintf(f, "},\"failed\":%s,\"message\":%s,\"path\":[", ex.m_failed ? "true" : "false",
			jsonEsc(ex.m_failMsg).c_str());
		if(ex.m_failed)
			for(size_t i = 0; i < ex.m_pos && i < ex.m_path.size(); i++)
				fprintf(f, "%s%d", i ? "," : "", ex.m_path[i].c);
		fprintf(f, "],\"samples\":[");
		for(size_t i = 0; i < samples.size(); i++)
			fprintf(f, "%s%s", i ? "," : "", jsonEsc(samples[i]).c_str());
		fprintf(f, "]}\n");
		fclose(f);
		auto dump = [&](std::unordered_set<uint64_t> const& s, char const* ext) {
			FILE* g = fopen((out + ext).c_str(), "wb");
			if(!g)
				return;
			std::vector<uint64_t> v(s.begin(), s.end());
			fwrite(v.data(), 8, v.size(), g);
			fclose(g);
		};
		dump(ex.m_states, ".states");
		dump(ex.m_outcomes, ".outcomes");
	}
	return ex.m_failed ? 1 : 0;
}

} // namespace mc

#define MC_CHECK(ex, key, cond, ...)                                                              \
	do {                                                                                      \
		if(!(cond))                                                                       \
			(ex).fail(key, std::string(#cond) + " at line " + std::to_string(__LINE__) \
					       + ": " + mc::fmt(__VA_ARGS__));                      \
	} while(0)

#define MC_MAIN                           \
	int main(int argc, char** argv)   \
	{                                 \
		return mc::main_(argc, argv); \
	}
