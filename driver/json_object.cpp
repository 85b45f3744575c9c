// Objects of user defined types written as JSON and read back, with text known except for what is chosen
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_json.hpp"
using namespace Bomba;
#include "objects.hpp"
extern "C" {
int ghost_number;
int ghost_flag;
int ghost_inner;
int ghost_order;
int ghost_style;
int ghost_kind;
}
struct Inner;
struct Outer;
using Three = std::array<int16_t, 3>;
SA_MEMBER(Inner, uint8_t, "small");
SA_MEMBER(Inner, int8_t, "negative");
SA_MEMBER(Inner, bool, "flag");
SA_MEMBER(Outer, int32_t, "first");
SA_MEMBER(Outer, Three, "list");
SA_MEMBER(Outer, Inner, "inner");
SA_MEMBER(Outer, bool, "flag");
SA_MEMBER(Outer, int16_t, "marked");
SA_MEMBER(Outer, int64_t, "last");
struct Inner : Serialisable<Inner> {
	uint8_t small = key<"small"> = 13; // Like the marks that the reflection uses
	int8_t negative = key<"negative"> = -13;
	bool flag = key<"flag">;
};
struct Outer : Serialisable<Outer> {
	int32_t first = key<"first"> = 0x0d0d0d0d;
	std::array<int16_t, 3> list = key<"list">;
	Inner inner = key<"inner">;
	bool flag = key<"flag">;
	int16_t marked = key<"marked"> = -0x0c0d;
	int64_t last = key<"last">;
};
using Json = BasicJson<LongText, LongText>;
static void prepare() {
	prepareObject<Inner>();
	prepareObject<Outer>();
}
static void choose(Outer& written) {
	constexpr int64_t numbers[] = {0, -2147483647 - 1, 2147483647, 10, -7};
	ghost_number = sa_enum(0, 4);
	ghost_flag = sa_enum(0, 1);
	ghost_inner = sa_enum(0, 1);
	written.first = numbers[ghost_number];
	written.list = {0, -32768, 32767};
	written.inner.small = ghost_inner ? 255 : 0;
	written.inner.negative = ghost_inner ? -128 : 13;
	written.inner.flag = ghost_inner;
	written.marked = ghost_inner ? 32767 : -32768;
	written.flag = ghost_flag;
	constexpr int64_t large[] = {0, -1000000000000000000, 1000000000000000001, 10000000000, -7};
	written.last = large[ghost_number];
}
static void compare(const Outer& back, const Outer& written) {
	sa_check(back.first == written.first && back.last == written.last, "C13 numbers in an object are read as they were written");
	for (int i = 0; i < 3; i++) sa_check(back.list[i] == written.list[i], "C13 an array in an object is read as it was written");
	sa_check(back.inner.small == written.inner.small && back.inner.negative == written.inner.negative && back.inner.flag == written.inner.flag, "C13 an object in an object is read as it was written");
	sa_check(back.marked == written.marked, "C13 numbers in an object are read as they were written");
	sa_check(back.flag == written.flag, "C13 a truth value in an object is read as it was written");
}
extern "C" void scn_json_object_back() {
	prepare();
	Outer written;
	choose(written);
	LongText text;
	Json::Output out(text);
	TypedSerialiser<Outer>::serialiseMember(out, written, {});
	Outer back;
	Json::Input in{std::string_view(text)};
	TypedSerialiser<Outer>::deserialiseMember(in, back, {});
	sa_check(in.good, "C13 an object that was written can be read");
	compare(back, written);
	sa_reach("read");
}
static void member(LongText& to, int which) {
	switch (which) {
		case 0: to += "\"first\":-17"; break;
		case 1: to += "\"inner\": {\"flag\":true, \"small\":200}"; break;
		case 2: to += "\"list\":[4,5,6]"; break;
		default: // unknown
			switch (ghost_kind) {
				case 0: to += "\"firs\":1"; break;
				case 1: to += "\"firsts\" : {\"first\":3,\"list\":[{\"flag\":[]}, 4]}"; break;
				case 2: to += "\"\":[[],{},\"]\"]"; break;
				default: to += "\"small\":\"\\\"}\"";
			}
	}
}
extern "C" void scn_json_object_order() { // members in any order, one of them is unknown, some are not there
	prepare();
	constexpr int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	ghost_order = sa_enum(0, 5);
	ghost_style = sa_enum(0, 3); // where the unknown one is
	ghost_kind = sa_enum(0, 3);
	LongText text;
	text += '{';
	for (int i = 0; i < 4; i++) {
		if (i) text += ',';
		if (i == ghost_style) member(text, 3);
		else member(text, orders[ghost_order][i - (i > ghost_style)]);
	}
	text += "}";
	Outer back;
	back.flag = true;
	back.last = 77;
	Json::Input in{std::string_view(text)};
	TypedSerialiser<Outer>::deserialiseMember(in, back, {});
	sa_check(in.good, "C13 an object can be read with its members in any order");
	sa_check(back.first == -17 && back.inner.flag && back.inner.small == 200, "C13 members are found by names in any order");
	sa_check(back.list[0] == 4 && back.list[1] == 5 && back.list[2] == 6, "C13 members are found by names in any order");
	sa_check(back.flag && back.last == 77, "C13 members that are not there keep their values");
	sa_reach("read");
}
template <typename T>
static void through(LongText& text, const T& from, T& to) {
	Json::Output out(text);
	TypedSerialiser<T>::serialiseMember(out, from, {});
	Json::Input in{std::string_view(text)};
	TypedSerialiser<T>::deserialiseMember(in, to, {});
	sa_check(in.good, "C13 what was written can be read");
}
extern "C" void scn_json_containers_back() {
	ghost_kind = sa_enum(0, 5);
	ghost_number = sa_enum(0, 2);
	LongText text;
	switch (ghost_kind) {
		case 0: {
			std::optional<int32_t> from, to;
			if (ghost_number) from = ghost_number;
			to = 9;
			through(text, from, to);
			sa_check(from.has_value() == to.has_value() && (!to || *to == *from), "C13 an optional value is read as it was written");
			break;
		}
		case 1: {
			std::unique_ptr<int32_t> from, to;
			if (ghost_number) from = std::make_unique<int32_t>(ghost_number);
			through(text, from, to);
			sa_check(!from == !to && (!to || *to == *from), "C13 a pointer is read as it was written");
			break;
		}
		case 2: {
			std::array<int32_t, 3> from = {ghost_number, 7, -7}, to = {9, 9, 9};
			through(text, from, to);
			sa_check(to[0] == from[0] && to[1] == from[1] && to[2] == from[2], "C13 an array is read as it was written");
			break;
		}
		case 3: {
			List<int32_t> from, to;
			for (int i = 0; i < ghost_number; i++) from.push_back(i + 5);
			ghost_flag = sa_enum(0, 3); // how many were there before
			for (int i = 0; i < ghost_flag; i++) to.push_back(9);
			through(text, from, to);
			sa_check(to.size() == from.size(), "C13 a vector is read as it was written");
			for (int i = 0; i < ghost_number; i++) sa_check(to[i] == i + 5, "C13 a vector is read as it was written");
			break;
		}
		case 4: {
			LongText from, to;
			for (int i = 0; i < ghost_number; i++) from += '"';
			to = "xyz";
			through(text, from, to);
			sa_check(std::string_view(to) == std::string_view(from), "C13 a text is read as it was written");
			break;
		}
		default: {
			Map from, to;
			if (ghost_number > 0) from[Name("a")] = 5;
			if (ghost_number > 1) from[Name("\n")] = 6;
			ghost_flag = sa_enum(0, 2); // what was there before
			if (ghost_flag > 0) to[Name("b")] = 9;
			if (ghost_flag > 1) to[Name("\n")] = 9;
			through(text, from, to);
			sa_check(to.size() == from.size(), "C13 a map is read as it was written");
			if (ghost_number > 0) sa_check(to[Name("a")] == 5, "C13 a map is read as it was written");
			if (ghost_number > 1) sa_check(to[Name("\n")] == 6, "C13 a map is read as it was written");
			sa_check(to.size() == from.size(), "C13 a map is read as it was written");
		}
	}
	sa_reach("read");
}
