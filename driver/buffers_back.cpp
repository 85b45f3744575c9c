// What buffers hand out is what was appended to them
#include "text.hpp"
#include "blob.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
extern "C" {
int ghost_first;  // sizes of what is appended
int ghost_second;
int ghost_third;
int ghost_clear;  // what is done before the third
int ghost_buffer;
}
static char source[100];
static int at;
static char letter(int i) { return i % 4 == 3 ? 0 : 'A' + i % 57; }
template <typename Buffer>
static void append(Buffer& buffer, int kind) { // 0-30: range, 31: character, 32: text, 33: nothing
	if (kind == 31) buffer += letter(at++);
	else if (kind == 32) {
		char text[4] = { letter(at), letter(at + 1), letter(at + 2), 0 };
		buffer += (const char*)text;
		at += !text[0] ? 0 : !text[1] ? 1 : !text[2] ? 2 : 3;
	} else if (kind == 30) {
		buffer += std::string_view(source + at, 2);
		at += 2;
	} else {
		buffer += std::span<const char>(source + at, size_t(kind));
		at += kind;
	}
}
static void prepare() {
	for (int i = 0; i < 100; i++) source[i] = letter(i);
	at = 0;
}
static const char* same = "C21 a buffer hands out what was appended to it, in that order";
template <typename Buffer>
static void look(Buffer& buffer, int from, int most) {
	std::string_view got = buffer;
	std::span<char> also = buffer;
	int size = std::min(at - from, most);
	sa_check(int(got.size()) == size && int(also.size()) == size, same);
	if (at - from <= most) sa_check(buffer.size() == size, "C21 a buffer knows how much it contains");
	for (int i = 0; i < size; i++) sa_check(got[i] == letter(from + i) && also[i] == letter(from + i), same);
}
static void amounts(int limit) {
	ghost_first = sa_enum(0, limit);
	if (ghost_first == limit) ghost_first = 30 + sa_enum(0, 2);
	ghost_second = sa_enum(0, limit);
	if (ghost_second == limit) ghost_second = 30 + sa_enum(0, 2);
	ghost_third = 30 + sa_enum(0, 2);
	ghost_clear = sa_enum(0, 1);
}
template <typename Buffer>
static void kept(int most) {
	prepare();
	Buffer buffer;
	append(buffer, ghost_first);
	append(buffer, ghost_second);
	look(buffer, 0, most);
	int from = 0;
	if (ghost_clear) {
		buffer.clear();
		from = at;
		look(buffer, from, most);
		append(buffer, ghost_first);
	}
	append(buffer, ghost_third);
	look(buffer, from, most);
	sa_reach("looked");
}
extern "C" void scn_expanding_back() {
	amounts(18);
	kept<ExpandingBuffer<4, Blob>>(1000);
}
extern "C" void scn_nonexpanding_back() {
	amounts(10);
	kept<NonExpandingBuffer<8>>(8);
}
extern "C" void scn_streaming_back() {
	amounts(18);
	prepare();
	Text sent;
	auto write = [&] (std::span<const char> part) {
		sa_check(!part.empty(), "C21 a streaming buffer writes only something");
		sent += std::string_view(part.data(), part.size());
	};
	{
		NonOwningStreamingBuffer<8> buffer(write);
		append(buffer, ghost_first);
		if (ghost_clear) {
			buffer.flush();
			sa_check(sent.size <= at, same);
		}
		append(buffer, ghost_second);
		append(buffer, ghost_third);
		sa_check(buffer.size() == at, "C21 a buffer knows how much it contains");
	}
	sa_check(sent.size == at, same);
	for (int i = 0; i < sent.size; i++) sa_check(sent.data[i] == letter(i), same);
	sa_reach("looked");
}
