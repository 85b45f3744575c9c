// How JSON texts and values of which the text is known, except for some characters, are read
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_json.hpp"
using namespace Bomba;
extern "C" {
int ghost_letter;
int ghost_value;
int ghost_visits;
int ghost_space;
}
using Json = BasicJson<Text, Text>;
using Flags = IStructuredInput::Flags;
static void someCharacter() {
	if (sa_bool()) ghost_letter = sa_enum(0, 0x8ff);
	else if (sa_bool()) ghost_letter = sa_enum(0xfff0, 0xffff);
	else ghost_letter = sa_enum(0x10fff0, 0x10ffff);
}
extern "C" void scn_json_read_back() {
	someCharacter();
	Text original, encoded;
	original += 'a';
	character(original, ghost_letter);
	original += '0';
	Json::Output output(encoded);
	output.writeString({}, original);
	Json::Input input{std::string_view(encoded)};
	std::string_view read = input.readString({});
	sa_check(read == std::string_view(original), "C08 a text in JSON is read as it was written");
	sa_check(input.good, "C08 a text in JSON is read as it was written");
	sa_reach("read");
}
static char digit(int value, char ten) { return value < 10 ? '0' + value : ten + value - 10; }
extern "C" void scn_json_read_escapes() {
	Text expected, encoded;
	encoded += "\"a\\";
	expected += 'a';
	ghost_value = sa_enum(0, 1);
	if (ghost_value) {
		if (sa_bool()) ghost_letter = sa_enum(0, 0x8ff);
		else if (sa_bool()) ghost_letter = sa_enum(0xd7f0, 0xd7ff);
		else ghost_letter = sa_enum(0xfff0, 0xffff);
		encoded += 'u';
		char ten = ghost_letter & 0x100 ? 'A' : 'a'; // Both are right
		for (int shift = 12; shift >= 0; shift -= 4) encoded += digit(ghost_letter >> shift & 0xf, ten);
		character(expected, ghost_letter);
	} else {
		ghost_letter = sa_enum(0, 7);
		encoded += "\"\\/bfnrt"[ghost_letter];
		expected += "\"\\/\b\f\n\r\t"[ghost_letter];
	}
	encoded += "z\"";
	expected += 'z';
	Json::Input input{std::string_view(encoded)};
	std::string_view read = input.readString({});
	sa_check(read == std::string_view(expected), "C12 escape sequences in JSON are read as the characters they mean");
	sa_check(input.good, "C12 escape sequences in JSON are read as the characters they mean");
	sa_reach("read");
}
static char letter() { // that has no special meaning in a text
	char c = sa_buf(1)[0];
	sa_assume(c != '"' && c != '\\');
	return c;
}
static void value(Text& to) {
	ghost_value = sa_enum(0, 17);
	switch (ghost_value) {
		case 0: to += "7"; break;
		case 1: to += "-1.5e+3"; break;
		case 2: to += "true"; break;
		case 3: to += "false"; break;
		case 4: to += "null"; break;
		case 5: to += "\"\""; break;
		case 6: to += '"'; to += letter(); to += letter(); to += '"'; break;
		case 7: to += "\"\\\""; to += letter(); to += "\\\\\""; break;
		case 8: to += "[]"; break;
		case 9: to += "{}"; break;
		case 10: to += "[1, [2], {\"c\":[]}]"; break;
		case 11: to += "{ \"c\" : { \"d\" : [ 1 , 2 ] } , \"e\" : \"}\" }"; break;
		case 12: to += "[\""; to += letter(); to += "\",\"\\\"\",\""; to += letter(); to += "\"]"; break;
		case 13: to += "{\""; to += letter(); to += "\":\"\\\\\"}"; break;
		case 14: to += "[[[]],[]]"; break;
		case 15: to += "\"\\u0041\"";  break;
		case 16: to += "2E2"; break;
		default: to += "-120";
	}
}
extern "C" void scn_json_skip_member() {
	Text text;
	ghost_visits = 0;
	text += "{\"a\":";
	ghost_space = sa_enum(0, 1);
	if (ghost_space == 1) text += ' ';
	value(text);
	ghost_space += 2 * sa_enum(0, 1);
	if (ghost_space >= 2) text += "\n";
	text += ",\"b\":\"z\"}";
	Json::Input input{std::string_view(text)};
	input.readObject({}, [&] (std::optional<std::string_view> name, int index) {
		if (ghost_visits == 0) {
			sa_check(name && *name == "a" && index == 0, "C12 every member of an object in JSON is visited once in order");
			input.skipObjectElement({});
		} else {
			sa_check(ghost_visits == 1 && name && *name == "b" && index == 1, "C12 every member of an object in JSON is visited once in order");
			sa_check(input.readString({}) == "z", "C12 skipping a value in JSON skips it as a whole and nothing more");
		}
		ghost_visits++;
		return true;
	});
	sa_check(ghost_visits == 2 && input.good, "C12 every member of an object in JSON is visited once in order");
	sa_reach("read");
}
extern "C" void scn_json_skip_element() {
	Text text;
	ghost_visits = 0;
	text += "[";
	ghost_space = sa_enum(0, 1);
	if (ghost_space == 1) text += "\r\n\t ";
	value(text);
	text += ",";
	ghost_space += 2 * sa_enum(0, 1);
	if (ghost_space >= 2) text += " ";
	text += "true]";
	Json::Input input{std::string_view(text)};
	input.startReadingArray({});
	sa_check(input.nextArrayElement({}), "C12 every element of an array in JSON is visited once in order");
	input.skipObjectElement({});
	sa_check(input.nextArrayElement({}), "C12 every element of an array in JSON is visited once in order");
	sa_check(input.readBool({}), "C12 skipping a value in JSON skips it as a whole and nothing more");
	sa_check(!input.nextArrayElement({}), "C12 every element of an array in JSON is visited once in order");
	input.endReadingArray({});
	sa_check(input.good, "C12 every element of an array in JSON is visited once in order");
	sa_reach("read");
}
extern "C" void scn_json_identify() {
	Text text;
	value(text);
	Json::Input input{std::string_view(text)};
	auto type = input.identifyType({});
	switch (ghost_value) {
		case 0: sa_check(type == IStructuredInput::TYPE_INTEGER, "C12 the type of a value in JSON is identified"); sa_check(input.readInt({}) == 7, "C12 values in JSON are read"); break;
		case 1: case 16: sa_check(type == IStructuredInput::TYPE_FLOAT, "C12 the type of a value in JSON is identified"); break;
		case 17: sa_check(type == IStructuredInput::TYPE_INTEGER, "C12 the type of a value in JSON is identified"); sa_check(input.readInt({}) == -120, "C12 values in JSON are read"); break;
		case 2: sa_check(type == IStructuredInput::TYPE_BOOLEAN, "C12 the type of a value in JSON is identified"); sa_check(input.readBool({}), "C12 values in JSON are read"); break;
		case 3: sa_check(type == IStructuredInput::TYPE_BOOLEAN, "C12 the type of a value in JSON is identified"); sa_check(!input.readBool({}), "C12 values in JSON are read"); break;
		case 4: sa_check(type == IStructuredInput::TYPE_NULL, "C12 the type of a value in JSON is identified"); input.readNull({}); break;
		case 5: case 6: case 7: case 15: sa_check(type == IStructuredInput::TYPE_STRING, "C12 the type of a value in JSON is identified"); input.readString({}); break;
		case 8: case 10: case 12: case 14: sa_check(type == IStructuredInput::TYPE_ARRAY, "C12 the type of a value in JSON is identified"); break;
		default: sa_check(type == IStructuredInput::TYPE_OBJECT, "C12 the type of a value in JSON is identified");
	}
	sa_check(input.good, "C12 values in JSON are read");
	sa_reach("read");
}
extern "C" { int ghost_place; }
struct Spaced { // puts whitespace before one of its tokens
	Text text;
	int place = 0;
	void add(std::string_view token) {
		if (place == ghost_place) {
			text += "\t\n\r "[ghost_space];
			if (ghost_space == 3) text += "\r\n\t";
		}
		place++;
		text += token;
	}
};
extern "C" void scn_json_spaces() {
	ghost_place = sa_enum(0, 18);
	ghost_space = sa_enum(0, 3);
	ghost_visits = 0;
	Spaced it;
	for (auto token : { "[", "7", ",", "\"a\"", ",", "true", ",", "{", "\"n\"", ":", "null", ",", "\"f\"", ":", "0", "}", "]", "" })
		it.add(token);
	Json::Input input{std::string_view(it.text)};
	const char* problem = "C12 whitespace in JSON does not matter";
	sa_check(input.identifyType({}) == IStructuredInput::TYPE_ARRAY, problem);
	input.startReadingArray({});
	sa_check(input.nextArrayElement({}), problem);
	sa_check(input.identifyType({}) == IStructuredInput::TYPE_INTEGER, problem);
	sa_check(input.readInt({}) == 7, problem);
	sa_check(input.nextArrayElement({}), problem);
	sa_check(input.identifyType({}) == IStructuredInput::TYPE_STRING, problem);
	sa_check(input.readString({}) == "a", problem);
	sa_check(input.nextArrayElement({}), problem);
	sa_check(input.identifyType({}) == IStructuredInput::TYPE_BOOLEAN, problem);
	sa_check(input.readBool({}), problem);
	sa_check(input.nextArrayElement({}), problem);
	sa_check(input.identifyType({}) == IStructuredInput::TYPE_OBJECT, problem);
	input.readObject({}, [&] (std::optional<std::string_view> name, int index) {
		if (ghost_visits == 0) {
			sa_check(name && *name == "n" && index == 0, problem);
			sa_check(input.identifyType({}) == IStructuredInput::TYPE_NULL, problem);
			input.readNull({});
		} else {
			sa_check(ghost_visits == 1 && name && *name == "f" && index == 1, problem);
			sa_check(input.readInt({}) == 0, problem);
		}
		ghost_visits++;
		return true;
	});
	sa_check(!input.nextArrayElement({}), problem);
	input.endReadingArray({});
	sa_check(input.good && ghost_visits == 2, problem);
	sa_reach("read");
}
