// mc: property=P03 flavour=asan,opt
//
// All bit-error patterns of bounded weight and all bursts, on the real checksum layers.
#include <libstored/protocol.h>

#include "common/mc.h"

#include <memory>

using mc::Explorer;

namespace {

struct Sink : stored::ProtocolLayer {
	size_t n = 0;
	std::string last;
	bool keep = false;
	void decode(void* b, size_t len) override
	{
		n++;
		if(keep)
			last.assign((char const*)b, len);
	}
	using stored::ProtocolLayer::encode;
};

struct Wire : stored::ProtocolLayer {
	std::string partial;
	std::vector<std::string> frames;
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(last) {
			frames.push_back(partial);
			partial.clear();
		}
	}
	using stored::ProtocolLayer::encode;
};

template <typename L>
struct Traits;
template <>
struct Traits<stored::Crc8Layer> {
	static constexpr int width = 8;
	static constexpr char const* name = "crc8";
};
template <>
struct Traits<stored::Crc16Layer> {
	static constexpr int width = 16;
	static constexpr char const* name = "crc16";
};

template <typename L>
struct Rig {
	Sink up;
	L layer;
	Wire down;
	Rig()
	{
		layer.wrap(up);
		down.wrap(layer);
	}
};

std::string content(size_t len, int fill)
{
	std::string s(len, '\0');
	for(size_t i = 0; i < len; i++)
		s[i] = fill == 0 ? 0 : fill == 1 ? (char)0xff : (char)(i * 37 + len);
	return s;
}

// Bit by bit, by the documented polynomial and initial value.
template <typename L>
std::string reference(std::string const& m)
{
	int w = Traits<L>::width;
	unsigned poly = w == 8 ? 0xa6 : 0xbaad;
	unsigned top = 1u << (w - 1);
	unsigned crc = w == 8 ? 0xff : 0xffff;
	for(unsigned char c : m)
		for(int b = 7; b >= 0; b--) {
			bool bit = ((crc & top) != 0) != ((c >> b & 1) != 0);
			crc = (crc << 1) & (2 * top - 1);
			if(bit)
				crc ^= poly;
		}
	std::string r;
	if(w == 16)
		r += (char)(crc >> 8);
	r += (char)crc;
	return r;
}

// The known finding: the error pattern is a multiple of the polynomial that is actually used by Crc8Layer.
bool multipleOfA6(std::string const& err)
{
	unsigned r = 0;
	for(unsigned char c : err)
		for(int b = 7; b >= 0; b--) {
			r = (r << 1) | (unsigned)(c >> b & 1);
			if(r & 0x100)
				r ^= 0x1a6;
		}
	return r == 0;
}

// The lengths (first choice), the contents, and the first bit are the choices; the other bits are enumerated below.
template <typename L>
void bits(Explorer& ex, std::vector<size_t> const& lens, int weight)
{
	Rig<L> r;
	size_t len = lens[(size_t)ex.shardChoose((int)lens.size())];
	int fill = ex.choose(len < 64 ? 3 : 2) + (len < 64 ? 0 : 1);
	std::string m = content(len, fill);
	r.up.encode(m.data(), m.size(), true);
	std::string f = r.down.frames.at(0);
	MC_CHECK(ex, "frame length", f.size() == len + Traits<L>::width / 8, "%zu for %zu", f.size(), len);
	std::unique_ptr<char[]> p(new char[f.size()]);
	memcpy(p.get(), f.data(), f.size());
	r.up.keep = true;
	r.layer.decode(p.get(), f.size());
	MC_CHECK(ex, "undamaged", r.up.n == 1 && r.up.last == m, "%zu", r.up.n);
	MC_CHECK(ex, "modified", memcmp(p.get(), f.data(), f.size()) == 0, " ");
	r.up.keep = false;
	size_t n = f.size() * 8;
	size_t i = (size_t)ex.choose((int)n);
	auto flip = [&](size_t b) { p[b / 8] = (char)(p[b / 8] ^ (char)(0x80u >> (b % 8))); };
	auto bad = [&](std::vector<size_t> b) {
		std::string e(f.size(), '\0');
		for(size_t x = 0; x < f.size(); x++)
			e[x] = (char)(p[x] ^ f[x]);
		bool known = Traits<L>::width == 8 && weight > 1 && multipleOfA6(e);
		std::string w;
		for(size_t x : b)
			w += mc::fmt(" %zu", x);
		r.up.n = 1;
		ex.note(known ? "crc8-polynomial" : "undetected",
			mc::fmt("%s: %zu byte message, error in bits%s not detected", Traits<L>::name, len, w.c_str()));
		if(!known)
			throw mc::Violation();
	};
	r.up.n = 1;
	flip(i);
	if(weight == 1) {
		r.layer.decode(p.get(), f.size());
		ex.step();
		if(r.up.n != 1)
			bad({i});
	} else
		for(size_t j = i + 1; j < n; j++) {
			flip(j);
			if(weight == 2) {
				r.layer.decode(p.get(), f.size());
				ex.step();
				if(r.up.n != 1)
					bad({i, j});
			} else
				for(size_t k = j + 1; k < n; k++) {
					flip(k);
					r.layer.decode(p.get(), f.size());
					ex.step();
					if(r.up.n != 1)
						bad({i, j, k});
					flip(k);
				}
			flip(j);
		}
	ex.trace("%s len=%zu fill=%d first bit=%zu weight=%d", Traits<L>::name, len, fill, i, weight);
	ex.obs(i * 100000 + len * 10 + (size_t)fill);
}

// All error patterns within a window of `width` bits.
template <typename L>
void bursts(Explorer& ex, std::vector<size_t> const& lens, int width)
{
	Rig<L> r;
	size_t len = lens[(size_t)ex.shardChoose((int)lens.size())];
	std::string m = content(len, 2);
	r.up.encode(m.data(), m.size(), true);
	std::string f = r.down.frames.at(0);
	size_t n = f.size() * 8;
	if((int)n < width)
		ex.prune();
	size_t pos = (size_t)ex.choose((int)(n - (size_t)width + 1));
	std::unique_ptr<char[]> p(new char[f.size()]);
	for(unsigned e = 1u; e < 1u << width; e++) {
		if(!(e >> (width - 1) & 1) && pos + (size_t)width < n)
			continue; // also at the next position
		memcpy(p.get(), f.data(), f.size());
		for(int b = 0; b < width; b++)
			if(e >> (width - 1 - b) & 1)
				p[(pos + (size_t)b) / 8] ^= (char)(0x80u >> ((pos + (size_t)b) % 8));
		r.layer.decode(p.get(), f.size());
		ex.step();
		MC_CHECK(ex, "undetected", r.up.n == 0, "%s: %zu byte message, burst %x at bit %zu", Traits<L>::name, len, e,
			 pos);
	}
	ex.trace("%s len=%zu bursts at bit %zu", Traits<L>::name, len, pos);
	ex.obs(pos * 1000 + len);
}

// Undamaged messages of all lengths in all splits, consecutively, with other frames decoded in between.
template <typename L>
void whole(Explorer& ex)
{
	Rig<L> a, b;
	b.up.keep = true;
	size_t sent = 0;
	size_t lens[] = {0, 1, 2, 3, 5, 29, 30, 31, 32, 127, 128, 255, 256, 257, 1000};
	int rounds = 2;
	for(int r = 0; r < rounds; r++) {
		size_t len = lens[(size_t)(r ? ex.choose(15) : ex.shardChoose(15))];
		std::string m = content(len, ex.choose(3));
		size_t c0 = 0, c1 = 0;
		if(len < 6) {
			c0 = (size_t)ex.choose((int)len + 1);
			c1 = c0 + (size_t)ex.choose((int)(len - c0) + 1);
		} else {
			c0 = (size_t[]){0, 1, len / 2, len - 1, len}[ex.choose(5)];
			c1 = ex.flip() ? len : c0;
		}
		bool noise = ex.flip();
		bool final = ex.flip();
		std::unique_ptr<char[]> p(new char[len]);
		memcpy(p.get(), m.data(), len);
		a.up.encode(p.get(), c0, false);
		if(noise) {
			char x[] = "noise";
			a.layer.decode(x, 5);
			a.up.n = 0;
		}
		a.up.encode(p.get() + c0, c1 - c0, false);
		a.up.encode(p.get() + c1, len - c1, final);
		if(!final)
			a.up.encode();
		MC_CHECK(ex, "frames", a.down.frames.size() == ++sent, "%zu", a.down.frames.size());
		std::string f = a.down.frames.back();
		MC_CHECK(ex, "checksum value", f == m + reference<L>(m), "%s: %zu bytes", Traits<L>::name, len);
		std::unique_ptr<char[]> q(new char[f.size()]);
		memcpy(q.get(), f.data(), f.size());
		b.layer.decode(q.get(), f.size());
		MC_CHECK(ex, "undamaged", b.up.n == sent && b.up.last == m, "%s: %zu bytes, split at %zu and %zu",
			 Traits<L>::name, len, c0, c1);
		ex.trace("%s %zu bytes, split at %zu and %zu", Traits<L>::name, len, c0, c1);
		ex.step();
		if(!r && ex.flip()) {
			// An abandoned message does not influence the next one
			a.up.encode("abc", 3, false);
			a.down.partial.clear();
			a.up.reset();
			a.layer.reset();
		}
		ex.obs(f);
	}
}

// Everything up to a few bytes: exactly those that end in the right checksum are passed up.
template <typename L>
void allFrames(Explorer& ex, size_t maxLen)
{
	Rig<L> r;
	size_t w = Traits<L>::width / 8;
	size_t len = (size_t)ex.shardChoose((int)maxLen + 1);
	std::string f;
	for(size_t i = 0; i + 1 < len; i++)
		f += (char)ex.choose(256);
	if(len == 0) {
		r.layer.decode((void*)"", 0);
		MC_CHECK(ex, "too short", r.up.n == 0, " ");
		ex.step();
		return;
	}
	size_t ok = 0;
	for(int c = 0; c < 256; c++) {
		std::unique_ptr<char[]> p(new char[len]);
		memcpy(p.get(), f.data(), len - 1);
		p[len - 1] = (char)c;
		r.up.n = 0;
		r.layer.decode(p.get(), len);
		ex.step();
		MC_CHECK(ex, "too short", len >= w || r.up.n == 0, " ");
		MC_CHECK(ex, "twice", r.up.n <= 1, " ");
		ok += r.up.n;
	}
	MC_CHECK(ex, "unique", ok <= 1, "%zu last bytes accepted", ok);
	if(w == 1)
		MC_CHECK(ex, "unique", ok == 1, "%zu last bytes accepted", ok);
	ex.obs(mc::hashStr(f));
}

} // namespace

template <typename L>
static void reg(bool th)
{
	using mc::add;
	using mc::slow;
	std::string n = Traits<L>::name;
	std::vector<size_t> all, pairs, three;
	for(size_t i = 0; i <= 256; i++)
		all.push_back(i);
	for(size_t i = 0; i <= (slow ? 12u : 40u); i++)
		pairs.push_back(i);
	if(!slow) {
		pairs.push_back(100);
		pairs.push_back(127);
		if(th) {
			pairs.push_back(200);
			pairs.push_back(255);
		}
		pairs.push_back(256);
	}
	for(size_t i : {0, 1, 2, 3, 5, 8, 13, 17})
		if(!slow || i <= 5)
			three.push_back(i);
	if(!slow)
		three.push_back(30);
	if(th && !slow)
		for(size_t i = 20; i < 30; i++)
			three.push_back(i);
	add(n + " 1 bit", "all lengths 0..256, all single bit errors", 4, [=](Explorer& ex) { bits<L>(ex, all, 1); });
	add(n + " 2 bits", mc::fmt("%zu lengths up to %zu, all pairs of bit errors", pairs.size(), pairs.back()), 8,
	    [=](Explorer& ex) { bits<L>(ex, pairs, 2); });
	add(n + " 3 bits", mc::fmt("%zu lengths up to %zu, all triples of bit errors", three.size(), three.back()), 8,
	    [=](Explorer& ex) { bits<L>(ex, three, 3); });
	std::vector<size_t> bl;
	for(size_t i = 0; i <= 256; i++)
		if(Traits<L>::width == 8 ? !slow || i < 40 : (i < (th && !slow ? 20u : slow ? 2u : 6u)))
			bl.push_back(i);
	// (Bursts of 8 bits are not detected by the polynomial of the 8-bit CRC, and are not documented to be.)
	add(n + " bursts", mc::fmt("%zu lengths up to %zu, all bursts", bl.size(), bl.back()), 8,
	    [=](Explorer& ex) { bursts<L>(ex, bl, Traits<L>::width == 8 ? 7 : 16); });
	add(n + " undamaged", "all pairs of messages of 15 lengths, all splits in 3 of short ones", 4, whole<L>);
	add(n + " all frames", "all frames of up to 3 bytes", 4,
	    [=](Explorer& ex) { allFrames<L>(ex, Traits<L>::width == 8 ? 2 : 3); });
}

void mc::setup(bool thorough)
{
	reg<stored::Crc8Layer>(thorough);
	reg<stored::Crc16Layer>(thorough);
}

MC_MAIN
