// mc: property=P08 flavour=asan,opt stores=SyncStore,SyncTwo
//
// Arbitrary messages for a real Synchronizer, in every state of the connection, judged by a model of the protocol.
#include "SyncStore.h"
#include "SyncTwo.h"

#include <libstored/synchronizer.h>

#include "common/mc.h"

#include <deque>
#include <map>
#include <memory>

using mc::Explorer;

namespace {

int hookCount;
bool hookBad;

class Store : public STORE_T(Store, stored::Synchronizable, stored::SyncStoreBase) {
	STORE_CLASS(Store, stored::Synchronizable, stored::SyncStoreBase)
public:
	Store() = default;
	using base::data;
	std::string bytes()
	{
		char* b = (char*)this->data().buffer;
		STORED_MAKE_MEM_DEFINED(b, BufferSize);
		return std::string(b, (size_t)BufferSize);
	}

protected:
	void __hookChanged(stored::Type::type, void* buffer, size_t len) noexcept
	{
		hookCount++;
		char* b = (char*)this->data().buffer;
		if((char*)buffer < b || (char*)buffer + len > b + BufferSize)
			hookBad = true;
	}
};

class Two : public STORE_T(Two, stored::Synchronizable, stored::SyncTwoBase) {
	STORE_CLASS(Two, stored::Synchronizable, stored::SyncTwoBase)
public:
	Two() = default;
	using base::data;
	std::string bytes()
	{
		char* b = (char*)this->data().buffer;
		STORED_MAKE_MEM_DEFINED(b, BufferSize);
		return std::string(b, (size_t)BufferSize);
	}
};

struct Wire : stored::ProtocolLayer {
	std::deque<std::string> out;
	std::string partial;
	void encode(void const* b, size_t len, bool last) override
	{
		if(len)
			partial.append((char const*)b, len);
		if(last) {
			out.push_back(partial);
			partial.clear();
		}
	}
	using stored::ProtocolLayer::encode;
};

struct Node {
	std::unique_ptr<Store> store{new Store()};
	std::unique_ptr<Two> two{new Two()};
	stored::Synchronizer sync;
	Node()
	{
		sync.map(*store);
		sync.map(*two);
	}
	std::string all()
	{
		return store->bytes() + two->bytes();
	}
};

size_t const S = Store::BufferSize;
size_t const T = Two::BufferSize;

std::string id16(unsigned i)
{
	return std::string{(char)(i & 0xff), (char)(i >> 8)};
}

enum Setup { Fresh, Served, Asked, Source, Both, Setups };

struct World {
	Explorer& ex;
	Node v, child;
	Wire attack, toChild, toVictim;
	int offset = 0;

	// Model of the attacked connection
	struct Info {
		bool source = false;
		unsigned in = 0, out = 0;
	};
	std::map<int, Info> info; // by store
	bool connected = false;

	std::string want[2];

	explicit World(Explorer& e)
		: ex(e)
	{
		hookCount = 0;
		hookBad = false;
		v.sync.connect(toChild);
		child.sync.connect(toVictim);
		child.sync.syncFrom(*child.store, toVictim);
		child.sync.syncFrom(*child.two, toVictim);
		settle();
		v.sync.connect(attack);
		connected = true;
		want[0] = v.store->bytes();
		want[1] = v.two->bytes();
	}
	~World()
	{
		if(connected)
			v.sync.disconnect(attack);
		v.sync.disconnect(toChild);
		child.sync.disconnect(toVictim);
	}
	char const* hash(int s)
	{
		return s ? v.two->hash() : v.store->hash();
	}
	int byHash(std::string const& h)
	{
		return h == hash(0) ? 0 : h == hash(1) ? 1 : -1;
	}
	int byIn(unsigned id)
	{
		for(auto& i : info)
			if(id && i.second.in == id)
				return i.first;
		return -1;
	}
	void checkUpdate(std::string const& m)
	{
		size_t p = 3;
		while(p < m.size()) {
			MC_CHECK(ex, "sent", p + 2 <= m.size(), "%s", mc::esc(m).c_str());
			size_t k = (uint8_t)m[p], l = (uint8_t)m[p + 1];
			MC_CHECK(ex, "sent", k < S && k + l <= S && p + 2 + l <= m.size(), "out of bounds update sent: %s",
				 mc::esc(m).c_str());
			p += 2 + l;
		}
	}
	void settle()
	{
		for(int i = 0;; i++) {
			MC_CHECK(ex, "endless", i < 20, "settle");
			v.sync.process();
			child.sync.process();
			if(toChild.out.empty() && toVictim.out.empty())
				break;
			for(int side = 0; side < 2; side++) {
				Wire& from = side ? toVictim : toChild;
				Wire& to = side ? toChild : toVictim;
				while(!from.out.empty()) {
					std::string m = from.out.front();
					from.out.pop_front();
					if(m[0] == 'u')
						checkUpdate(m);
					to.decode(&m[0], m.size());
				}
			}
		}
	}
	// What the attacked node sent.
	void parse()
	{
		while(!attack.out.empty()) {
			std::string m = attack.out.front();
			attack.out.pop_front();
			ex.trace("<- %s", mc::esc(m).c_str());
			MC_CHECK(ex, "sent", m.size() > 0, "empty message sent");
			switch(m[0]) {
			case 'h': {
				int s = byHash(m.c_str() + 1);
				MC_CHECK(ex, "sent", s >= 0 && m.size() == 1 + 41 + 2, "%s", mc::esc(m).c_str());
				unsigned id = (uint8_t)m[42] | (unsigned)(uint8_t)m[43] << 8;
				MC_CHECK(ex, "sent", id && (byIn(id) < 0 || byIn(id) == s), "id %u", id);
				Info& i = info[s];
				i.in = id;
				i.source = true;
				i.out = 0;
				break;
			}
			case 'w': {
				MC_CHECK(ex, "sent", m.size() > 5, "%s", mc::esc(m).c_str());
				unsigned id = (uint8_t)m[1] | (unsigned)(uint8_t)m[2] << 8;
				unsigned wid = (uint8_t)m[3] | (unsigned)(uint8_t)m[4] << 8;
				int s = -1;
				for(auto& i : info)
					if(!i.second.source && i.second.out == id && i.second.in == 0)
						s = i.first;
				MC_CHECK(ex, "sent", s >= 0 && wid, "unexpected %s", mc::esc(m).c_str());
				MC_CHECK(ex, "sent", byIn(wid) < 0, "id %u", wid);
				info[s].in = wid;
				MC_CHECK(ex, "sent", m.substr(5) == (s ? v.two->bytes() : v.store->bytes()), "%s", mc::esc(m).c_str());
				break;
			}
			case 'u': checkUpdate(m); break;
			case 'b': break;
			default: MC_CHECK(ex, "sent", false, "%s", mc::esc(m).c_str());
			}
		}
	}
	void send(std::string const& m)
	{
		ex.trace("-> %s", mc::esc(m).c_str());
		char c = m.empty() ? 0 : m[0];
		unsigned id = m.size() >= 3 ? (uint8_t)m[1] | (unsigned)(uint8_t)m[2] << 8 : 0;
		switch(c) {
		case 'h': {
			size_t z = m.find('\0');
			if(z == std::string::npos || z + 2 >= m.size())
				break;
			id = (uint8_t)m[z + 1] | (unsigned)(uint8_t)m[z + 2] << 8;
			int s = byHash(m.substr(1, z - 1));
			if(!id || s < 0)
				break;
			info[s].source = false;
			info[s].out = id;
			info[s].in = 0; // Replaced by Welcome
			break;
		}
		case 'w': {
			if(!id)
				break;
			unsigned wid = m.size() < 5 ? 0 : (uint8_t)m[3] | (unsigned)(uint8_t)m[4] << 8;
			int s = byIn(id);
			if(s < 0)
				break;
			size_t sz = s ? T : S;
			if(!wid || !info[s].source || m.size() - 5 < sz) {
				info.erase(s);
				break;
			}
			want[s] = m.substr(5, sz);
			info[s].out = wid;
			break;
		}
		case 'u': {
			int s = byIn(id);
			if(s < 0)
				break;
			size_t p = 3;
			std::string& b = want[s];
			while(p < m.size()) {
				if(p + 2 > m.size()) {
					info.erase(s);
					break;
				}
				size_t k = (uint8_t)m[p], l = (uint8_t)m[p + 1];
				if(k >= b.size() || k + l > b.size() || p + 2 + l > m.size()) {
					info.erase(s);
					break;
				}
				b.replace(k, l, m.substr(p + 2, l));
				p += 2 + l;
			}
			break;
		}
		case 'b':
			if(m.size() == 1) {
				for(int s = 0; s < 2; s++)
					if(info.count(s) && !info[s].source)
						info.erase(s);
			} else if(m.size() == 3) {
				for(int s = 0; s < 2; s++)
					if(id && info.count(s) && info[s].out == id && !info[s].source)
						info.erase(s);
			} else {
				size_t z = m.find('\0');
				int s = z == std::string::npos ? -1 : byHash(m.substr(1, z - 1));
				if(s >= 0 && info.count(s) && !(info[s].source && info[s].out))
					info.erase(s);
			}
			break;
		default:;
		}
		std::unique_ptr<char[]> b(new char[m.size() + (size_t)offset + 1]);
		// Exactly at the end of the allocated memory
		char* d = b.get() + offset;
		std::unique_ptr<char[]> exact;
		if(!offset) {
			exact.reset(new char[m.size() ? m.size() : 1]);
			d = exact.get();
		}
		memcpy(d, m.data(), m.size());
		attack.decode(d, m.size());
		check();
		parse();
		// Using the same id for two stores makes a Bye ambiguous.
		if(info.count(0) && info.count(1) && info[0].out && info[0].out == info[1].out)
			ex.prune();
	}
	void check()
	{
		MC_CHECK(ex, "contents", v.store->bytes() == want[0], "have %s, expected %s", mc::esc(v.store->bytes()).c_str(),
			 mc::esc(want[0]).c_str());
		MC_CHECK(ex, "contents", v.two->bytes() == want[1], "second store: have %s, expected %s",
			 mc::esc(v.two->bytes()).c_str(), mc::esc(want[1]).c_str());
		MC_CHECK(ex, "hooks", !hookBad, "hook for something outside the store");
	}
	void setup(int s)
	{
		if(s == Served || s == Both) {
			send("h" + std::string(hash(0)) + std::string(1, '\0') + id16(5));
			MC_CHECK(ex, "served", byIn(info[0].in) == 0, "no Welcome");
		}
		if(s == Asked || s == Source) {
			v.sync.syncFrom(*v.store, attack);
			parse();
			MC_CHECK(ex, "asked", byIn(info[0].in) == 0, "no Hello");
		}
		if(s == Source) {
			std::string b(S, 'x');
			send("w" + id16(info[0].in) + id16(2) + b);
		}
		if(s == Both) {
			v.sync.syncFrom(*v.two, attack);
			parse();
			send("w" + id16(info[1].in) + id16(7) + std::string(T, 'y'));
		}
	}
	// Proper operation afterwards
	void recover(bool sameConnection)
	{
		settle();
		check();
		if(!sameConnection) {
			v.sync.disconnect(attack);
			attack.out.clear();
			v.sync.connect(attack);
		}
		info.clear();
		Node root;
		Wire w;
		root.sync.connect(w);
		root.store->a = 1234;
		root.store->c = 7;
		root.two->y = 99;
		if(sameConnection) {
			// The other side starts properly now, with taking a copy, on the same connection.
			send("b");
			attack.out.clear();
			root.sync.syncFrom(*root.store, w);
		} else
			v.sync.syncFrom(*v.store, attack);
		auto run = [&]() {
			for(int i = 0;; i++) {
				MC_CHECK(ex, "endless", i < 20, "recover");
				settle();
				v.sync.process();
				root.sync.process();
				if(attack.out.empty() && w.out.empty())
					break;
				for(int side = 0; side < 2; side++) {
					Wire& from = side ? w : attack;
					Wire& to = side ? attack : w;
					while(!from.out.empty()) {
						std::string m = from.out.front();
						from.out.pop_front();
						ex.trace("%s %s", side ? "=>" : "<=", mc::esc(m).c_str());
						if(m[0] == 'u')
							checkUpdate(m);
						to.decode(&m[0], m.size());
					}
				}
			}
		};
		run();
		auto same = [&](char const* when) {
			MC_CHECK(ex, "recover", root.store->bytes() == v.store->bytes(), "%s: root %s, here %s", when,
				 mc::esc(root.store->bytes()).c_str(), mc::esc(v.store->bytes()).c_str());
			// Updates that do not match the objects are not always fully passed on.
			if(!sameConnection)
				MC_CHECK(ex, "recover", child.store->bytes() == v.store->bytes(), "%s: child %s, here %s", when,
				 mc::esc(child.store->bytes()).c_str(), mc::esc(v.store->bytes()).c_str());
		};
		same("initial");
		v.store->b = 4321;
		root.store->a = 4322;
		child.store->D = 1.5;
		run();
		same("after writes");
		MC_CHECK(ex, "recover", root.store->b.get() == 4321 && v.store->a.get() == 4322 && root.store->D.get() == 1.5
			 && child.store->b.get() == 4321 && child.store->a.get() == 4322,
			 "writes not seen");
		v.sync.disconnect(attack);
		connected = false;
		root.sync.disconnect(w);
	}
};

std::vector<std::string> messages(World& w, bool full)
{
	std::vector<std::string> m;
	std::string z(1, '\0');
	std::string h0 = w.hash(0), h1 = w.hash(1);
	// ids that mean something now
	std::vector<unsigned> ids = {1, 2, 5};
	if(full) {
		ids.push_back(0);
		ids.push_back(3);
		ids.push_back(0xffff);
	}
	m.push_back("");
	m.push_back(std::string(1, '\0'));
	m.push_back("b");
	m.push_back("u");
	m.push_back("h");
	m.push_back("w");
	if(full) {
		m.push_back("x" + h0 + z + id16(1));
		m.push_back("H" + h0 + z + id16(1));
		m.push_back("U" + id16(1) + std::string("\0\4abcd", 6));
	}
	// Hello
	for(auto& h : {h0, h1})
		for(unsigned i : ids)
			m.push_back("h" + h + z + id16(i));
	std::string bogus = h0;
	bogus[3] ^= 1;
	m.push_back("h" + bogus + z + id16(1));
	m.push_back("h" + h0 + z);
	if(full) {
		m.push_back("h" + z + id16(1));
		m.push_back("hab" + z + id16(1));
		m.push_back("h" + h0 + z + "\1");
		m.push_back("h" + h0);
		m.push_back("h" + h0.substr(0, 20));
		m.push_back("h" + h0 + z + id16(1) + "more");
	}
	// Welcome
	for(unsigned i : ids) {
		for(size_t l : {(size_t)0, S - 1, S, S + 1, T}) {
			m.push_back("w" + id16(i) + id16(2) + std::string(l, 'q'));
			if(full) {
				m.push_back("w" + id16(i) + id16(0) + std::string(l, 'q'));
				m.push_back("w" + id16(i) + id16(1) + std::string(l, 'q'));
			}
		}
		if(full) {
			m.push_back("w" + id16(i));
			m.push_back("w" + id16(i) + "\2");
		}
	}
	// Update
	auto e = [](size_t k, size_t l, size_t have) {
		return std::string{(char)k, (char)l} + std::string(have, 'd');
	};
	std::vector<std::string> up = {e(0, 4, 4), e(S - 1, 1, 1), e(S - 1, 2, 2), e(S, 0, 0), e(0, S, S), e(0, 4, 4) + e(S - 2, 3, 3)};
	std::string frag, over, dup;
	for(size_t i = 0; i < S; i++)
		frag += e(i, 1, 1);
	for(size_t i = 0; i < S; i++)
		over += e(i, S - i, S - i);
	for(size_t i = 0; i < 200; i++)
		dup += e(3, 7, 7);
	up.push_back(over);
	if(full)
		for(auto& x : {std::string(), std::string("\1"), e(0, 4, 3), e(0, 4, 0), e(0, 4, 5), e(255, 0, 0), e(255, 1, 1), e(255, 255, 255),
			       e(0, 255, 255), e(0, 0, 0), e(S + 1, 255, 255), e(1, 255, 255), frag, frag + "x", dup, over + frag,
			       e(S - 1, 0, 0), e(4, 4, 4) + e(0, 4, 4) + e(4, 4, 4), e(0, S - 1, S - 1) + e(0, S + 1, S + 1)})
			up.push_back(x);
	for(unsigned i : ids)
		for(auto& u : up)
			m.push_back("u" + id16(i) + u);
	if(full)
		m.push_back("u\1");
	// Bye
	for(unsigned i : ids)
		m.push_back("b" + id16(i));
	m.push_back("b" + h0 + z);
	m.push_back("b" + h1 + z);
	if(full) {
		m.push_back("b" + bogus + z);
		m.push_back("b" + h0);
		m.push_back("b\1");
		m.push_back("bab" + z);
		m.push_back("b" + z + z + z);
		m.push_back("b" + h0 + z + "more");
	}
	return m;
}

void run(Explorer& ex, int setup, int depth, bool full, int fullAt)
{
	World w(ex);
	w.setup(setup);
	// Where the received message is in memory.
	if(depth == 1)
		w.offset = ex.choose(4);
	for(int d = 0; d < depth; d++) {
		auto m = messages(w, full || d == fullAt);
		int n = d ? ex.choose((int)m.size()) : ex.shardChoose((int)m.size());
		w.send(m[(size_t)n]);
		ex.step();
	}
	ex.obs(w.v.all());
	w.recover(ex.flip());
}

// All short messages
void bytes(Explorer& ex, int setup, int len)
{
	World w(ex);
	w.setup(setup);
	static char const cmds[] = {'h', 'w', 'u', 'b'};
	std::string m(1, cmds[ex.choose(4)]);
	static unsigned char const b[] = {0, 1, 2, 4, 5, 0x29, 0x2a, 0x2b, 0xff};
	int l = ex.choose(len + 1);
	for(int i = 0; i < l; i++)
		m += (char)b[ex.choose(sizeof(b))];
	w.send(m);
	w.settle();
	w.check();
	ex.obs(w.v.all());
	ex.step();
	if(l < 3)
		w.recover(ex.flip());
}

} // namespace

void mc::setup(bool th)
{
	static char const* const name[] = {"fresh", "served", "asked", "source", "served and source"};
	for(int s = 0; s < Setups; s++) {
		add(mc::fmt("%s, one message", name[s]), "all messages of the grammar, all alignments", 1,
		    [=](Explorer& ex) { run(ex, s, 1, true, 0); });
		add(mc::fmt("%s, two messages", name[s]), "all pairs of messages of the grammar", 4,
		    [=](Explorer& ex) { run(ex, s, 2, !slow || th, 1); });
		if(!slow || th)
			add(mc::fmt("%s, three messages", name[s]), "all triplets of a smaller grammar", 8,
			    [=](Explorer& ex) { run(ex, s, 3, false, th ? 2 : -1); });
		add(mc::fmt("%s, bytes", name[s]), "all messages of a few bytes of an adversarial alphabet", 1,
		    [=](Explorer& ex) { bytes(ex, s, (slow ? 4 : 5) + (th ? 1 : 0)); });
	}
}

MC_MAIN
