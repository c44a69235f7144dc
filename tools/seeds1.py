COMMON = r'''
#include <stored>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>
#include <cstdlib>
using namespace stored;
struct Cap : public ProtocolLayer { // bottom: records the frames
	std::vector<std::string> f; std::string part; size_t m;
	Cap(size_t m = 0) : m(m) {}
	void encode(void const* b, size_t l, bool last = true) override {
		part.append((char const*)b, l); if(last) { f.push_back(part); part.clear(); } }
	using ProtocolLayer::encode;
	size_t mtu() const override { return m; }
};
struct Top : public ProtocolLayer { // top: records the messages
	std::vector<std::string> m;
	void decode(void* b, size_t l) override { m.push_back(std::string((char*)b, l)); }
};
#define CHECK(x) do { if(!(x)) { printf("line %d: %s\n", __LINE__, #x); exit(1); } } while(0)
static void feed(ProtocolLayer& l, std::string s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); l.decode(p, s.size()); free(p); }
'''
SEEDS = [
dict(id='p01-seg-onebyte', prop='P01',
 edits=[('src/protocol.cpp', '''		if(len > 1) {
			size_t start = m_decode.size();''', '''		if(len > 2) {
			size_t start = m_decode.size();''')],
 needs='a message of which the last (or any) segment carries exactly one byte of payload',
 breaks='the single byte of that segment is lost from the reassembled message',
 demo=COMMON + r'''
int main() {
	for(size_t len = 1; len < 60; len++) for(size_t mtu = 2; mtu < 12; mtu++) {
		Cap cap(mtu); SegmentationLayer enc; enc.stack(cap);
		Top top; SegmentationLayer dec; dec.wrap(top) ;
		std::string msg; for(size_t i = 0; i < len; i++) msg += (char)('a' + i % 26);
		enc.encode(msg.data(), msg.size(), true);
		for(auto& f : cap.f) feed(dec, f);
		CHECK(top.m.size() == 1 && top.m[0] == msg);
	}
}'''),
dict(id='p02-single-char', prop='P02',
 edits=[('src/protocol.cpp', 'if(i - nonDebugOffset > 1U)', 'if(i - nonDebugOffset > 2U)')],
 needs='exactly one byte of text between two debug frames (or the start of the chunk and a frame)',
 breaks='that byte of text is not handed out',
 demo=COMMON + r'''
struct T : public TerminalLayer { std::string text; void nonDebugDecode(void* b, size_t l) override { text.append((char*)b, l); } };
int main() {
	Top top; T t; t.wrap(top);
	feed(t, "ab\x1b_one\x1b\\x\x1b_two\x1b\\yz\x1b_three\x1b\\");
	CHECK(top.m == (std::vector<std::string>{"one", "two", "three"}));
	CHECK(t.text == "abxyz");
}'''),
dict(id='p03-crc16-entry', prop='P03',
 edits=[('src/protocol.cpp', '0x1F26, 0x9BC7, 0x216A,', '0x1F26, 0x9BC7, 0x206A,')],
 needs='a message whose CRC computation indexes entry 65 of the table',
 breaks='the checksum is not the one of the polynomial anymore, so other implementations drop the frame',
 demo=COMMON + r'''
int main() {
	for(int a = 0; a < 256; a++) {
		uint8_t m[2] = {(uint8_t)a, 7};
		uint16_t crc = 0xffff;
		for(uint8_t b : m) { crc ^= (uint16_t)(b << 8); for(int i = 0; i < 8; i++) crc = (crc & 0x8000) ? (uint16_t)(crc << 1) ^ 0xbaad : (uint16_t)(crc << 1); }
		Cap cap; Crc16Layer c; c.stack(cap); c.encode(m, 2, true);
		CHECK(cap.f.size() == 1 && cap.f[0].size() == 4);
		CHECK((uint8_t)cap.f[0][2] == crc >> 8 && (uint8_t)cap.f[0][3] == (crc & 255));
	}
}'''),
dict(id='p04-retransmit-nop', prop='P04',
 edits=[('src/protocol.cpp', '''			if((hdr & NopFlag)) {
				buffer_++;
				len--;
			} else {
				// Drop remaining message, without decode.
				len = 0;
			}''', '''			// Continue with what comes next.
			buffer_++;
			len--;''')],
 needs='a retransmitted data message (its ack got lost) whose payload looks like an arq header',
 breaks='the payload of the retransmitted message is interpreted as arq headers, such as an ack',
 demo=COMMON + r'''
int main() {
	// a sends, its frames are recorded.
	Cap ca, cb; Top ta, tb; ArqLayer a, b; a.stack(ca); b.stack(cb); a.wrap(ta); b.wrap(tb);
	size_t ia = 0, ib = 0;
	auto pump = [&]() { bool d = true; while(d) { d = false;
		while(ia < ca.f.size()) { d = true; feed(b, ca.f[ia++]); }
		while(ib < cb.f.size()) { d = true; feed(a, cb.f[ib++]); } } };
	a.flush(); b.flush(); pump(); a.flush(); b.flush(); pump();
	for(int round = 0; round < 140; round++) {
		// b has a message outstanding of which the frame gets lost.
		b.encode("B", 1, true); ib = cb.f.size();
		// a sends a message that looks like an ack of it, b gets it twice.
		std::string msg; msg += (char)(0x80 | (cb.f.back()[0] & 0x3f)); msg += "x";
		a.encode(msg.data(), msg.size(), true);
		std::string frame = ca.f.back(); ia = ca.f.size();
		feed(b, frame); size_t k = tb.m.size();
		feed(b, frame);
		CHECK(tb.m.size() == k && tb.m.back() == msg);
		ib = cb.f.size(); // nothing of this arrives
		for(int i = 0; i < 4; i++) { a.keepAlive(); b.keepAlive(); pump(); }
		CHECK(ta.m.size() == (size_t)round + 1);
	}
}'''),
dict(id='p05-reexec-seq', prop='P05',
 edits=[('src/protocol.cpp', '''				m_decodeSeq = m_decodeSeqStart;
				m_decodeState = DecodeStateIdle;
				m_encodeSeqReset = true;''', '''				m_decodeState = DecodeStateIdle;
				m_encodeSeqReset = true;''')],
 needs='a request with a purgeable response, of which the response is lost, so the request is retransmitted',
 breaks='the retransmitted request is not executed, so the client never gets its response',
 demo=COMMON + r'''
struct App : public ProtocolLayer { int n = 0; void decode(void* b, size_t l) override { n++; setPurgeableResponse(); std::string s((char*)b, l); s = "re:" + s; encode(s.data(), s.size(), true); } };
int main() {
	Cap cap; DebugArqLayer d; d.stack(cap); App app; d.wrap(app);
	feed(d, std::string("\x80", 1));
	size_t n0 = cap.f.size();
	feed(d, std::string("\x01hello"));
	size_t n1 = cap.f.size();
	CHECK(n1 > n0 && app.n >= 1);
	feed(d, std::string("\x01hello")); // retransmit, as the response got lost
	CHECK(cap.f.size() > n1);
	CHECK(cap.f.back().substr(1) == "re:hello");
	size_t n2 = cap.f.size();
	feed(d, std::string("\x02" "again"));
	CHECK(cap.f.size() > n2 && cap.f.back().substr(1) == "re:again");
}'''),
dict(id='p06-flush-before-update', prop='P06',
 edits=[('src/synchronizer.cpp', '''		process(j, synchronizer().encodeBuffer());

		StoreJournal::Seq seq = 0;
		bool recordAll''', '''		StoreJournal::Seq seq = 0;
		bool recordAll''')],
 needs='a local write that is not yet processed at the moment that an update arrives over that connection',
 breaks='the local write is considered sent, so the copies never become equal',
 stores={'Two': 'uint32=1 a\nuint32=2 b\nuint32=3 c\n'},
 demo=COMMON + r'''
#include "Two.h"
class S : public STORE_T(S, stored::Synchronizable, stored::TwoBase) { STORE_CLASS(S, stored::Synchronizable, stored::TwoBase) public: S() is_default };
struct Q : public ProtocolLayer { std::vector<std::string> q; std::string p;
	void encode(void const* b, size_t l, bool last = true) override { p.append((char const*)b, l); if(last) { q.push_back(p); p.clear(); } }
	using ProtocolLayer::encode; };
int main() {
	S s1, s2; Synchronizer y1, y2; y1.map(s1); y2.map(s2);
	Q q1, q2; y1.connect(q1); y2.connect(q2);
	auto pump = [&]() { bool d = true; while(d) { d = false;
		while(!q1.q.empty()) { d = true; auto f = q1.q.front(); q1.q.erase(q1.q.begin()); feed(q2, std::string("\0\0\0\0", 0) + f); }
		while(!q2.q.empty()) { d = true; auto f = q2.q.front(); q2.q.erase(q2.q.begin()); feed(q1, f); } } };
	y2.syncFrom(s2, q2); pump();
	s1.a = 10u; s2.b = 20u;
	y1.process(); pump();       // the update of s1 arrives while s2 has a pending change
	y2.process(); pump(); y1.process(); pump(); y2.process(); pump();
	CHECK((uint32_t)s1.a.get() == 10 && (uint32_t)s2.a.get() == 10);
	CHECK((uint32_t)s2.b.get() == 20);
	CHECK((uint32_t)s1.b.get() == 20);
}''', draft=1),
dict(id='p07-clean-order', prop='P07',
 edits=[('src/synchronizer.cpp', '''	if(didErase)
		regenerate();''', '''	if(didErase)
		regenerate(0, m_changes.size());''')],
 needs='cleaning the journal of old changes, such that the last object takes the place of one in the middle',
 breaks='the journal is not sorted anymore, so changes of objects are missed or recorded twice',
 demo=COMMON + r'''
int main() {
	char buf[64] = {};
	StoreJournal j("0123456789abcdef", buf, sizeof(buf));
	for(int k = 0; k < 8; k++) j.changed((StoreJournal::Key)(k * 4), 4);
	auto s0 = j.bumpSeq();
	for(int k = 1; k < 8; k += 2) j.changed((StoreJournal::Key)(k * 4), 4);
	j.changed(28, 4); j.changed(24, 4);
	j.clean(s0);
	auto all = j.bumpSeq();
	for(int k = 0; k < 8; k++) {
		auto s = j.bumpSeq();
		j.changed((StoreJournal::Key)(k * 4), 4);
		CHECK(j.hasChanged((StoreJournal::Key)(k * 4), s));
		std::vector<int> got;
		j.iterateChanged(s, [](StoreJournal::Key key, void* a) { ((std::vector<int>*)a)->push_back((int)key); }, &got);
		CHECK(got.size() == 1 && got[0] == k * 4);
	}
	std::vector<int> got;
	j.iterateChanged(all, [](StoreJournal::Key key, void* a) { ((std::vector<int>*)a)->push_back((int)key); }, &got);
	CHECK(got.size() == 8);
}'''),
dict(id='p08-short-update', prop='P08',
 edits=[('src/synchronizer.cpp', 'if(unlikely(!ok || len < size)) {', 'if(unlikely(!ok || (size > sizeof(Key) && len < size))) {')],
 needs='an update message that is truncated within the data of an object of at most four bytes',
 breaks='bytes after the received message are read, written to the store, and decoding runs away',
 flags='', san=True,
 demo=COMMON + r'''
int main() {
	char buf[64] = {};
	StoreJournal j("0123456789abcdef", buf, sizeof(buf));
	uint8_t* m = (uint8_t*)malloc(8 + 4) ; m[8] = 4; m[9] = 4; m[10] = 0x55; m[11] = 0x66; // key, len, 2 of 4 bytes
	void* p = m + 8; size_t len = 4;
	CHECK(j.decodeUpdates(p, len, true, m) == 0);
	for(char c : buf) CHECK(c == 0);
	free(m);
}'''),
dict(id='p13-macro-size', prop='P13',
 edits=[('src/debugger.cpp', '''			it->second.clear();
			it->second.append(p, len);
			m_macroSize = newlen;''', '''			m_macroSize += len > it->second.size() ? len - it->second.size() : 0;
			it->second.clear();
			it->second.append(p, len);''')],
 needs='redefining a macro by a shorter one, repeatedly, before defining macros up to the limit',
 breaks='the accounting of macro space leaks, so macros that fit are refused',
 demo=COMMON + r'''
int main() {
	Debugger d; Cap cap; cap.wrap(d);
	std::string big = "ma;" + std::string(400, 'e'), small = "ma;e1";
	for(int i = 0; i < 20; i++) {
		feed(d, big); CHECK(cap.f.back() == "!");
		feed(d, small); CHECK(cap.f.back() == "!");
	}
	std::string fit = "mb;" + std::string(3000, 'e');
	feed(d, fit); CHECK(cap.f.back() == "!");
}'''),
dict(id='p14-macro-refused', prop='P14',
 edits=[('src/debugger.cpp', '''			size_t newlen = len + m_macroSize;
			if(newlen > Config::DebuggerMacro)
				goto error;

			std::pair<MacroMap::iterator, bool> inserted =
				macros().insert(MacroMap::value_type(m, String::type()));
''', '''			std::pair<MacroMap::iterator, bool> inserted =
				macros().insert(MacroMap::value_type(m, String::type()));

			size_t newlen = len + m_macroSize;
			if(newlen > Config::DebuggerMacro)
				goto error;

''')],
 needs='a new macro that is refused because the macro space is full, and defining it again after other macros are erased',
 breaks='the refused request leaves an empty macro behind, that is taken for one in use and can never be defined',
 demo=COMMON + r'''
int main() {
	Debugger d; Cap cap; cap.wrap(d);
	feed(d, "ma;" + std::string(3000, 'e')); CHECK(cap.f.back() == "!");
	feed(d, "mb;" + std::string(3000, 'e')); CHECK(cap.f.back() == "?");
	feed(d, "ma"); CHECK(cap.f.back() == "!");
	feed(d, "mb;" + std::string(3000, 'e')); CHECK(cap.f.back() == "!");
}'''),
dict(id='p16-wrap-partial', prop='P16',
 edits=[('include/libstored/fifo.h', '''				// The message fits at the start of the buffer.
				m_buffer.move(0, wp, partial);
				wp = 0;''', '''				// The message fits at the start of the buffer.
				m_buffer.move(0, (size_t)wp, std::min<size_t>(partial, wp));
				wp = 0;''')],
 needs='a partial message that is longer than the position at which it starts, and moves to the start of the buffer',
 breaks='the last part of the partial message is not moved, so the message is corrupted',
 demo=COMMON + r'''
int main() {
	for(int a = 1; a < 8; a++) for(int p = 1; p < 14; p++) for(int q = 1; q < 14; q++) {
		MessageFifo<32, 8> f;
		std::string A((size_t)a, 'a'), B(12, 'b'), P, Q;
		for(int i = 0; i < p; i++) P += (char)('A' + i);
		for(int i = 0; i < q; i++) Q += (char)('0' + i);
		CHECK(f.push_back(B)); CHECK(f.push_back(A)); 
		bool ok = f.append_back(P);
		f.pop_front();
		if(!ok) continue;
		if(!f.append_back(Q)) continue;
		CHECK(f.push_back());
		CHECK(std::string(f.front().data(), f.front().size()) == A); f.pop_front();
		CHECK(std::string(f.front().data(), f.front().size()) == P + Q); f.pop_front();
	}
	for(int a = 1; a < 16; a++) for(int p = 1; p < 31; p++) for(int q = 1; q < 31; q++) {
		MessageFifo<32, 8> f;
		std::string A((size_t)a, 'a'), P, Q;
		for(int i = 0; i < p; i++) P += (char)('A' + i);
		for(int i = 0; i < q; i++) Q += (char)('0' + i % 10);
		if(p + q > 31) continue;
		CHECK(f.push_back(A)); CHECK(f.push_back("z", 1));
		bool ok = f.append_back(P);
		f.pop_front();
		if(!ok) continue;
		if(!f.append_back(Q)) continue;
		CHECK(f.push_back());
		f.pop_front();
		CHECK(std::string(f.front().data(), f.front().size()) == P + Q); f.pop_front();
	}
}'''),
dict(id='p15-trace-phase', prop='P15', nohs=True,
 edits=[('src/debugger.cpp', '''	m_traceCount = 0;

	Stream<>* str = stream(m_traceStream, true);''', '''	Stream<>* str = stream(m_traceStream, true);'''),
  ('src/debugger.cpp', '''	runMacro(m_traceMacro, *str);
''', '''	m_traceCount = 0;
	runMacro(m_traceMacro, *str);
''')],
 needs='tracing with decimation while the stream is full at the moment that a sample is due',
 breaks='after the stream is read, the next sample is taken right away instead of at the n-th call',
 demo=COMMON + r'''
int main() {
	Debugger d; Cap cap; cap.wrap(d);
	feed(d, "ma;e" + std::string(100, 'x')); CHECK(cap.f.back() == "!");
	feed(d, "tas7"); CHECK(cap.f.back() == "!");
	long calls = 0, samples = 0;
	for(int round = 0; round < 5; round++) {
		long due = calls;
		for(int i = 0; i < 200; i++) { calls++; d.trace(); }
		feed(d, "ss");
		CHECK(cap.f.back().size() > 100);
		// Now the stream is empty, see when the next one is taken.
		while(true) {
			calls++;
			d.trace();
			feed(d, "ss");
			if(cap.f.back().size() > 1) break;
		}
		CHECK(calls % 7 == 0);
	}
}'''),
dict(id='p18-snapshot-total', prop='P18',
 edits=[('include/libstored/spm.h', '''		stored_assert(size <= m_total);
		m_total = size;
''', '''		stored_assert(size <= m_total);
		m_total = m_old.empty() ? size : (size_type)(m_total - (m_size - (size_t)(snapshot_ - m_buffer)));
''')],
 needs='leaving a snapshot that was taken in another chunk than the current one, with several chunks in use',
 breaks='the size accounting after leaving the snapshot is wrong',
 demo=COMMON + r'''
int main() {
	ScratchPad<> spm;
	(void)!!spm.alloc<char>(100);
	(void)!!spm.alloc<char>(1000);
	size_t s = spm.size();
	for(int i = 0; i < 5; i++) {
		{ auto snapshot = spm.snapshot(); (void)!!spm.alloc<char>(5000); (void)!!spm.alloc<char>(9000); }
		CHECK(spm.size() == s);
	}
}'''),
]
