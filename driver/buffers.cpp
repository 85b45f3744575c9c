#include "sa.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
// Whatever is appended to a buffer, in any pieces, stays inside the memory it owns
static void touch(std::string_view s) {
	if (!s.empty()) { volatile char c = s[sa_int(0, s.size() - 1)]; (void)c; }
}
static void fill(GeneralisedBuffer& b) {
	while (sa_bool()) {
		if (sa_bool()) b += char(sa_int(-128, 127));
		else if (sa_bool()) b += std::string_view(SA::Arbitrary());
		else b += std::span<const char>(SA::Arbitrary());
	}
}
extern "C" void scn_streaming() {
	auto writer = [] (std::span<const char> sent) { touch({sent.data(), sent.size()}); };
	NonOwningStreamingBuffer<1024> buffer(writer);
	fill(buffer);
	sa_reach("filled");
}
extern "C" void scn_nonexpanding() {
	NonExpandingBuffer<1024> buffer;
	while (sa_bool()) {
		fill(buffer);
		touch(std::string_view(buffer));
		std::span<char> all = buffer;
		touch({all.data(), all.size()});
		if (sa_bool()) buffer.clear();
	}
	sa_reach("filled");
}
extern "C" void scn_expanding() {
	ExpandingBuffer<1024> buffer;
	while (sa_bool()) {
		fill(buffer);
		touch(std::string_view(buffer));
		std::span<char> all = buffer;
		touch({all.data(), all.size()});
		if (sa_bool()) buffer.clear();
	}
	sa_reach("filled");
}
