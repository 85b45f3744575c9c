// What the writer of forms produces, for any sequence of calls that the interface permits, and that it can be read
#include "sa.hpp"
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
extern "C" {
int ghost_state;    // of the automaton, see enum State
int ghost_number;   // the next value is a number
int ghost_got;      // how many characters of the text were written
int ghost_letter;   // the character of the text
int ghost_empty;    // the text is empty
}
enum State { START, NAME, VALUE, HEX_NAME2, HEX_NAME1, HEX_VALUE2, HEX_VALUE1 };
static int hex;
static char sent;           // the text that is written
static bool separated;      // by one character & as many times as there are members
static void bad() {
	sa_check(false, "C08 what is written is a form");
	sa_assume(false);
}
static void decoded(int c) {
	sa_check(!ghost_empty && ghost_got == 0 && (c & 0xff) == (sent & 0xff), "C08 a text in a form denotes the characters that were written");
	ghost_got = 1;
}
static void complete() { sa_check(ghost_got == !ghost_empty, "C08 a text in a form denotes the characters that were written"); }
static void feed(char c) {
	if (ghost_state >= HEX_NAME2) {
		if (c >= '0' && c <= '9') hex = hex * 16 + (c - '0');
		else if (c >= 'a' && c <= 'f') hex = hex * 16 + (c - 'a' + 10);
		else if (c >= 'A' && c <= 'F') hex = hex * 16 + (c - 'A' + 10);
		else bad();
		if (ghost_state == HEX_NAME2) ghost_state = HEX_NAME1;
		else if (ghost_state == HEX_VALUE2) ghost_state = HEX_VALUE1;
		else {
			ghost_state = (ghost_state == HEX_NAME1) ? NAME : VALUE;
			decoded(hex);
		}
	} else if (c == '&') {
		if (ghost_state != VALUE) bad();
		ghost_state = NAME;
	} else if (c == '=') {
		complete();
		if (ghost_state == VALUE) bad();
		ghost_state = VALUE;
		ghost_got = 0;
	} else {
		if (ghost_state == START) ghost_state = NAME;
		if (c == '%') {
			hex = 0;
			ghost_state = (ghost_state == NAME) ? HEX_NAME2 : HEX_VALUE2;
		} else if (c == '+') decoded(' ');
		else {
			if ((unsigned char)c <= ' ' || (unsigned char)c >= 0x7f || c == '"' || c == '#') bad();
			decoded(c);
		}
	}
}
struct Sink {
	Sink& operator+=(char c) {
		feed(c);
		return *this;
	}
	Sink& operator+=(std::string_view text) {
		for (char c : text) feed(c);
		return *this;
	}
	Sink& operator+=(const char* text) { return *this += std::string_view(text); }
};
using Output = HtmlMessageEncoding<std::string, Sink>::Output;
static IStructuredOutput::Flags flags() { return IStructuredOutput::Flags(sa_int(0, 0x1ff)); }
static std::string_view text(bool any) { // every byte of a text is written separately
	ghost_got = 0;
	ghost_empty = sa_enum(0, 1);
	sent = 0;
	if (!ghost_empty) {
		if (any) ghost_letter = sa_enum(0, 0x7f);
		else ghost_letter = '&';
		sent = ghost_letter;
	}
	return {&sent, size_t(!ghost_empty)};
}
static void member(IStructuredOutput& out, int index) {
	out.introduceObjectMember(flags(), text(index == 0), index);
	sa_check(ghost_state == VALUE, "C08 a name in a form is followed by =");
	switch (sa_enum(0, 2)) {
		case 0: {
			out.writeString(flags(), text(index == 0));
			break;
		}
		case 1: {
			ghost_empty = ghost_got = 0;
			sent = '7';
			out.writeInt(flags(), 7);
			break;
		}
		default: {
			ghost_empty = 1;
			ghost_got = 0;
			out.writeOptional(IStructuredOutput::Flags::EMPTY_IS_NULL, false, [] {});
		}
	}
	complete();
	sa_check(ghost_state == VALUE, "C08 a value in a form is written as a whole");
	sa_reach("member");
	ghost_letter = ghost_empty = ghost_got = 0;
}
extern "C" void scn_form_write() {
	ghost_state = START;
	ghost_number = ghost_got = ghost_letter = ghost_empty = 0;
	Sink sink;
	Output out(sink);
	out.startWritingObject(flags(), sa_bool() ? IStructuredOutput::UNKNOWN_SIZE : int(sa_int(0, 1000)));
	member(out, 0);
	if (sa_bool()) {
		member(out, 1);
		if (sa_bool()) member(out, 2);
	}
	out.endWritingObject(flags());
	sa_reach("written");
}
extern "C" void scn_form_read_back() {
	if (sa_bool()) ghost_letter = sa_enum(0, 0x8ff);
	else if (sa_bool()) ghost_letter = sa_enum(0xfff0, 0x10010);
	else ghost_letter = sa_enum(0x10fff0, 0x10ffff);
	int code = ghost_letter;
	Text original, encoded, read;
	original += 'a';
	character(original, code);
	original += '0';
	mangleHttpResponse(original, encoded);
	demangleHttpResponse(encoded, read);
	sa_check(std::string_view(read) == std::string_view(original), "C08 a text in a form is read as it was written");
	sa_reach("read");
}
