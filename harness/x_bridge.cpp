// The C++ protocol layers behind a pipe, for the Python harnesses.
// mc: property=helper flavour=asan
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <stored>
#include <string>
#include <vector>

namespace {

std::string g_out;

void hex(char t, void const* p, size_t n)
{
	static char const d[] = "0123456789abcdef";
	g_out += ' ';
	g_out += t;
	for(size_t i = 0; i < n; i++) {
		g_out += d[((unsigned char const*)p)[i] >> 4];
		g_out += d[((unsigned char const*)p)[i] & 15];
	}
}

std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}

// The wire. Collects whole messages.
class Wire : public stored::ProtocolLayer {
public:
	size_t m = 0;
	std::string cur;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		cur.append((char const*)buffer, len);
		if(last) {
			hex('w', cur.data(), cur.size());
			cur.clear();
		}
	}
	using ProtocolLayer::encode;
	size_t mtu() const override
	{
		return m;
	}
};

// The application.
class Top : public stored::ProtocolLayer {
public:
	int mode = 0;
	unsigned count = 0;
	void decode(void* buffer, size_t len) override
	{
		hex('u', buffer, len);
		std::string m((char const*)buffer, len);
		if(!mode)
			return;
		count++;
		std::string r;
		if(mode == 3)
			setPurgeableResponse(true);
		else
			r = "0123456789"[count % 10];
		r += m;
		if(mode == 2) {
			encode(r.data(), r.size() / 2, false);
			encode(r.data() + r.size() / 2, r.size() - r.size() / 2, true);
		} else
			encode(r.data(), r.size(), true);
	}
};

struct Stack {
	Wire wire;
	Top top;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> layers; // top-down

	Stack(size_t mtu, std::string const& desc)
	{
		wire.m = mtu;
		size_t at = 0;
		while(at < desc.size()) {
			size_t e = desc.find(',', at);
			if(e == std::string::npos)
				e = desc.size();
			std::string l = desc.substr(at, e - at);
			at = e + 1;
			size_t arg = 0;
			size_t q = l.find('=');
			if(q != std::string::npos) {
				arg = (size_t)atoi(l.c_str() + q + 1);
				l.resize(q);
			}
			stored::ProtocolLayer* p = nullptr;
			if(l == "ascii")
				p = new stored::AsciiEscapeLayer(arg != 0);
			else if(l == "term")
				p = new stored::TerminalLayer(
					[](void* b, size_t n) { hex('x', b, n); });
			else if(l == "segment")
				p = new stored::SegmentationLayer(arg);
			else if(l == "crc8")
				p = new stored::Crc8Layer();
			else if(l == "crc16")
				p = new stored::Crc16Layer();
			else if(l == "arq")
				p = new stored::DebugArqLayer(arg);
			else if(l == "buffer")
				p = new stored::BufferLayer(arg);
			else if(l == "compress")
				p = new stored::CompressLayer();
			else
				abort();
			layers.emplace_back(p);
		}
		stored::ProtocolLayer* up = &top;
		for(auto& l : layers) {
			l->wrap(*up);
			up = l.get();
		}
		wire.wrap(*up);
	}
	~Stack()
	{
		// Bottom-up, as every layer may still flush to the one below.
		for(auto& l : layers)
			l.reset();
	}
};

} // namespace

int main()
{
	std::unique_ptr<Stack> s;
	std::string line;
	while(std::getline(std::cin, line)) {
		g_out.clear();
		char c = line.empty() ? ' ' : line[0];
		std::string a = line.size() > 2 ? line.substr(2) : "";
		switch(c) {
		case 'n': {
			size_t sp = a.find(' ');
			s.reset();
			g_out.clear();
			s.reset(new Stack((size_t)atoi(a.c_str()), a.substr(sp + 1)));
			break;
		}
		case 'E': {
			std::string m = unhex(a);
			s->top.encode(m.data(), m.size(), true);
			break;
		}
		case 'e': {
			std::string m = unhex(a);
			s->top.encode(m.data(), m.size(), false);
			break;
		}
		case 'd': {
			std::string m = unhex(a);
			std::unique_ptr<char[]> b(new char[m.size()]);
			memcpy(b.get(), m.data(), m.size());
			s->wire.decode(b.get(), m.size());
			break;
		}
		case 'f':
			s->top.flush();
			break;
		case 's':
			s->top.mode = atoi(a.c_str());
			break;
		case 'm':
			g_out = " m" + std::to_string(s->top.mtu());
			break;
		default:
			return 1;
		}
		g_out += '\n';
		fwrite(g_out.data(), 1, g_out.size(), stdout);
		fflush(stdout);
	}
	return 0;
}
