// What is written in the binary format is read back, for all numbers and characters
#include "text.hpp"
#include <cstring>
#include <vector>
#include <optional>
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;
#include "objects.hpp"
struct Inner;
struct Outer;
SA_MEMBER(Inner, uint8_t, "small");
SA_MEMBER(Inner, int8_t, "negative");
SA_MEMBER(Inner, bool, "flag");
SA_MEMBER(Outer, int32_t, "first");
using Three = std::array<int16_t, 3>;
SA_MEMBER(Outer, Three, "list");
SA_MEMBER(Outer, Inner, "inner");
SA_MEMBER(Outer, bool, "flag");
SA_MEMBER(Outer, int16_t, "marked");
SA_MEMBER(Outer, int64_t, "last");
extern "C" {
int ghost_kind;
int ghost_size;
int ghost_number;
int ghost_flag;
}
using Store = LongText;
using Binary = BinaryFormat<Store>;
namespace Flag = SerialisationFlags;
static void read(Binary::Input& in, Store& written) {
	sa_check(in.position() == written.size && in.good, "C12 what is read in the binary format is as long as what was written");
	sa_reach("read");
}
template <typename T>
static void number(Flag::Flags flag) {
	Store store;
	Binary::Output out(store);
	using Signed = std::make_signed_t<T>;
	constexpr long most = sizeof(T) == 8 ? (1l << 58) : long(std::numeric_limits<Signed>::max());
	constexpr long all = sizeof(T) == 8 ? most : long(std::numeric_limits<T>::max());
	long value;
	ghost_kind = sa_enum(0, 3); // Any value that fits also the signed type, then the limits of the upper half
	switch (ghost_kind) {
		case 0: value = sa_int(std::is_signed_v<T> ? -most - (sizeof(T) < 8) : 0, most); break;
		case 1: value = all; break;
		case 2: value = all - 1; break;
		default: value = sizeof(T) < 8 && std::is_unsigned_v<T> ? most + 1 : most;
	}
	out.writeInt(flag, value);
	sa_check(store.size == sizeof(T), "C12 a number in the binary format has the size of its type");
	Binary::Input in{std::string_view(store)};
	sa_check(in.readInt(flag) == value, "C12 a number in the binary format is read as it was written");
	read(in, store);
}
extern "C" void scn_binary_number_back() {
	switch (sa_enum(0, 7)) {
		case 0: number<int8_t>(Flag::INT_8); break;
		case 1: number<uint8_t>(Flag::UINT_8); break;
		case 2: number<int16_t>(Flag::INT_16); break;
		case 3: number<uint16_t>(Flag::UINT_16); break;
		case 4: number<int32_t>(Flag::INT_32); break;
		case 5: number<uint32_t>(Flag::UINT_32); break;
		case 6: number<int64_t>(Flag::INT_64); break;
		default: number<uint64_t>(Flag::UINT_64);
	}
}
extern "C" void scn_binary_value_back() {
	Store store;
	Binary::Output out(store);
	ghost_kind = sa_enum(0, 4);
	char text[3] = { sa_buf(1)[0], sa_buf(1)[0], sa_buf(1)[0] };
	ghost_size = sa_enum(0, 3);
	bool flag = sa_bool();
	long value = sa_int(-1000000, 1000000);
	auto sizeType = sa_bool() ? Flag::UINT_8 : Flag::NONE;
	switch (ghost_kind) {
		case 0: out.writeString({}, std::string_view(text, ghost_size)); break;
		case 1: out.writeBool({}, flag); break;
		case 2: out.writeOptional({}, ghost_size == 1, [&] { out.writeInt(Flag::INT_32, value); }); break;
		case 3: out.startWritingArray({}, ghost_size);
			for (int i = 0; i < ghost_size; i++) {
				out.introduceArrayElement({}, i);
				out.writeInt(Flag::INT_32, value + i);
			}
			out.endWritingArray({});
			break;
		default: out.startWritingObject({}, ghost_size);
			for (int i = 0; i < ghost_size; i++) {
				out.introduceObjectMember({}, "abc" + i, i);
				out.writeInt(Flag::INT_32, value + i);
			}
			out.endWritingObject({});
	}
	out.writeNull({});
	Binary::Input in{std::string_view(store)};
	switch (ghost_kind) {
		case 0: sa_check(in.readString({}) == std::string_view(text, ghost_size), "C12 a text in the binary format is read as it was written"); break;
		case 1: sa_check(in.readBool({}) == flag, "C12 a boolean in the binary format is read as it was written"); break;
		case 2: {
			bool present = in.readOptional({}, [&] { sa_check(in.readInt(Flag::INT_32) == value, "C12 a number in the binary format is read as it was written"); });
			sa_check(present == (ghost_size == 1), "C12 an optional value in the binary format is read as it was written");
			break;
		}
		case 3: {
			int i = 0;
			in.startReadingArray({});
			while (in.nextArrayElement({})) {
				sa_check(i < ghost_size && in.readInt(Flag::INT_32) == value + i, "C12 an array in the binary format is read as it was written");
				i++;
			}
			sa_check(i == ghost_size, "C12 an array in the binary format is read as it was written");
			in.endReadingArray({});
			break;
		}
		default: {
			int count = 0;
			in.readObject({}, [&] (std::optional<std::string_view> name, int index) {
				sa_check(index == count && index < ghost_size && name && *name == std::string_view("abc" + index), "C12 an object in the binary format is read as it was written");
				sa_check(in.readInt(Flag::INT_32) == value + index, "C12 an object in the binary format is read as it was written");
				count++;
				return true;
			});
			sa_check(count == ghost_size, "C12 an object in the binary format is read as it was written");
		}
	}
	in.readNull({});
	read(in, store);
}
struct Inner : Serialisable<Inner> {
	uint8_t small = key<"small"> = 13; // Like the marks that the reflection uses
	int8_t negative = key<"negative"> = -13;
	bool flag = key<"flag">;
};
struct Outer : Serialisable<Outer> {
	int32_t first = key<"first"> = 0x0d0d0d0d;
	std::array<int16_t, 3> list = key<"list">;
	Inner inner = key<"inner">;
	bool flag = key<"flag">;
	int16_t marked = key<"marked"> = -0x0c0d;
	int64_t last = key<"last">;
};
extern "C" void scn_binary_object_back() {
	prepareObject<Inner>();
	prepareObject<Outer>();
	Outer written;
	written.first = sa_int(-2000000000, 2000000000);
	for (int i = 0; i < 3; i++) written.list[i] = sa_int(-32768, 32767);
	written.inner.small = sa_int(0, 255);
	written.inner.negative = sa_int(-128, 127);
	written.inner.flag = sa_bool();
	written.marked = sa_int(-32768, 32767);
	written.flag = sa_bool();
	written.last = sa_int(-(1l << 60), 1l << 60);
	Store store;
	Binary::Output out(store);
	TypedSerialiser<Outer>::serialiseMember(out, written, Flag::OBJECT_LAYOUT_KNOWN);
	Outer back;
	Binary::Input in{std::string_view(store)};
	TypedSerialiser<Outer>::deserialiseMember(in, back, Flag::OBJECT_LAYOUT_KNOWN);
	sa_check(back.first == written.first, "C13 an object is read as it was written");
	for (int i = 0; i < 3; i++) sa_check(back.list[i] == written.list[i], "C13 an array in an object is read as it was written");
	sa_check(back.inner.small == written.inner.small, "C13 an object in an object is read as it was written");
	sa_check(back.inner.negative == written.inner.negative, "C13 an object in an object is read as it was written");
	sa_check(back.marked == written.marked, "C13 an object is read as it was written");
	sa_check(back.inner.flag == written.inner.flag, "C13 an object in an object is read as it was written");
	sa_check(back.flag == written.flag, "C13 an object is read as it was written");
	sa_check(back.last == written.last, "C13 an object is read as it was written");
	read(in, store);
}
template <typename T>
static void through(Store& store, const T& from, T& to) {
	ghost_size = sa_enum(0, 1);
	auto flags = ghost_size ? Flag::OBJECT_LAYOUT_KNOWN : Flag::NONE;
	Binary::Output out(store);
	TypedSerialiser<T>::serialiseMember(out, from, flags);
	Binary::Input in{std::string_view(store)};
	TypedSerialiser<T>::deserialiseMember(in, to, flags);
	read(in, store);
}
extern "C" void scn_binary_containers_back() {
	ghost_kind = sa_enum(0, 5);
	ghost_number = sa_enum(0, 2);
	int32_t value = sa_int(-2000000000, 2000000000);
	Store store;
	switch (ghost_kind) {
		case 0: {
			std::optional<int32_t> from, to;
			if (ghost_number) from = value;
			to = 9;
			through(store, from, to);
			sa_check(from.has_value() == to.has_value() && (!to || *to == *from), "C13 an optional value is read as it was written");
			break;
		}
		case 1: {
			std::unique_ptr<int32_t> from, to;
			if (ghost_number) from = std::make_unique<int32_t>(value);
			through(store, from, to);
			sa_check(!from == !to && (!to || *to == *from), "C13 a pointer is read as it was written");
			break;
		}
		case 2: {
			std::array<int32_t, 3> from = {value, 7, -7}, to = {9, 9, 9};
			through(store, from, to);
			sa_check(to[0] == from[0] && to[1] == from[1] && to[2] == from[2], "C13 an array is read as it was written");
			break;
		}
		case 3: {
			List<int32_t> from, to;
			for (int i = 0; i < ghost_number; i++) from.push_back(value + i);
			ghost_flag = sa_enum(0, 3); // how many were there before
			for (int i = 0; i < ghost_flag; i++) to.push_back(9);
			through(store, from, to);
			sa_check(to.size() == from.size(), "C13 a vector is read as it was written");
			for (int i = 0; i < ghost_number; i++) sa_check(to[i] == value + i, "C13 a vector is read as it was written");
			break;
		}
		case 4: {
			LongText from, to;
			char letter = sa_buf(1)[0];
			for (int i = 0; i < ghost_number; i++) from += letter;
			to = "xyz";
			through(store, from, to);
			sa_check(std::string_view(to) == std::string_view(from), "C13 a text is read as it was written");
			break;
		}
		default: {
			Map from, to;
			if (ghost_number > 0) from[Name("a")] = value;
			if (ghost_number > 1) from[Name("\n")] = value + 1;
			ghost_flag = sa_enum(0, 2); // what was there before
			if (ghost_flag > 0) to[Name("b")] = 9;
			if (ghost_flag > 1) to[Name("\n")] = 9;
			through(store, from, to);
			sa_check(to.size() == from.size(), "C13 a map is read as it was written");
			if (ghost_number > 0) sa_check(to[Name("a")] == value, "C13 a map is read as it was written");
			if (ghost_number > 1) sa_check(to[Name("\n")] == value + 1, "C13 a map is read as it was written");
			sa_check(to.size() == from.size(), "C13 a map is read as it was written");
		}
	}
}
