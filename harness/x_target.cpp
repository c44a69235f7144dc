// A debug target (a store and a debugger) behind a pipe, for the harness of the Python client.
// mc: property=helper flavour=asan,plain,dbg stores=CliStore
#include "CliStore.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <stored>
#include <string>

namespace {

std::string hex(std::string const& s)
{
	static char const d[] = "0123456789abcdef";
	std::string r;
	for(char c : s) {
		r += d[(unsigned char)c >> 4];
		r += d[(unsigned char)c & 15];
	}
	return r;
}

std::string unhex(std::string const& s)
{
	std::string r;
	for(size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
	return r;
}

class Store : public STORE_T(Store, stored::CliStoreDefaultFunctions, stored::CliStoreBase) {
	STORE_CLASS(Store, stored::CliStoreDefaultFunctions, stored::CliStoreBase)
public:
	Store() = default;
	int32_t m_fn = 11;

protected:
	void __fn(bool set, int32_t& value)
	{
		if(set)
			m_fn = value;
		else
			value = m_fn;
	}
};

class Wire : public stored::ProtocolLayer {
public:
	std::string out;
	int n = 0;
	void encode(void const* buffer, size_t len, bool last = true) override
	{
		out.append((char const*)buffer, len);
		if(last)
			n++;
	}
	using ProtocolLayer::encode;
};

struct Target {
	Store store;
	stored::Debugger debugger{"cli"};
	Wire wire;
	char mem[16] = {};
	Target()
	{
		debugger.map(store, "/");
		wire.wrap(debugger);
	}
};

std::string get(Target& t, char const* name)
{
	stored::DebugVariant v = t.debugger.find(name);
	if(!v.valid())
		return "?";
	std::string r(v.size(), '\0');
	size_t n = v.get(&r[0], r.size());
	if(v.type() != stored::Type::String)
		r.resize(n);
	return hex(r);
}

} // namespace

int main()
{
	std::unique_ptr<Target> t;
	std::string line;
	while(std::getline(std::cin, line)) {
		std::string out;
		char c = line.empty() ? ' ' : line[0];
		std::string a = line.size() > 2 ? line.substr(2) : "";
		switch(c) {
		case 'n':
			t.reset();
			t.reset(new Target());
			break;
		case 'q': {
			std::string m = unhex(a);
			std::unique_ptr<char[]> b(new char[m.size()]);
			memcpy(b.get(), m.data(), m.size());
			t->wire.out.clear();
			t->wire.n = 0;
			t->wire.decode(b.get(), m.size());
			out = std::to_string(t->wire.n) + " " + hex(t->wire.out);
			break;
		}
		case 'g':
			out = get(*t, a.c_str());
			break;
		case 'G':
			// All values, in the order of the list.
			t->store.list([&](void*, char const* name, stored::Type::type, void*, size_t) {
				out += get(*t, name);
				out += ' ';
			});
			break;
		case 's': {
			size_t sp = a.find('=');
			std::string v = unhex(a.substr(sp + 1));
			stored::DebugVariant d = t->debugger.find(a.substr(0, sp).c_str());
			if(d.valid())
				d.set(v.data(), v.size());
			else
				out = "?";
			break;
		}
		case 'A': {
			// Where an alias refers to.
			std::string al = unhex(a);
			stored::DebugVariant v = t->debugger.find(al.c_str(), al.size());
			if(!v.valid()) {
				out = "?";
				break;
			}
			t->store.list([&](void*, char const* name, stored::Type::type, void*, size_t) {
				stored::DebugVariant w = t->debugger.find(name);
				if(w == v)
					out += name;
			});
			break;
		}
		case 'T':
			t->debugger.trace();
			break;
		case 'a': {
			std::string m = unhex(a.substr(2));
			out = std::to_string(t->debugger.stream(a[0], m.data(), m.size()));
			break;
		}
		case 'p': {
			char b[32];
			snprintf(b, sizeof(b), "%llx", (unsigned long long)(uintptr_t)t->mem);
			out = b;
			break;
		}
		case 'm':
			out = hex(std::string(t->mem, sizeof(t->mem)));
			break;
		default:
			return 1;
		}
		out += '\n';
		fwrite(out.data(), 1, out.size(), stdout);
		fflush(stdout);
	}
	return 0;
}
