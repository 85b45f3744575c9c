// What the JSON writer produces, for any sequence of calls that the interface permits, watched by an automaton of JSON
#include "sa.hpp"
#include "bomba_core.hpp"
#include "bomba_json.hpp"
using namespace Bomba;
extern "C" {
int ghost_state;    // of the automaton, see enum State; WORD + place in the text of the words
int ghost_in;       // which container is being written, see enum Level
int ghost_number;   // a number is being written, 2 if something of it was
int ghost_flag;     // a truth value that is written
int ghost_letter;   // the control character in the text
int ghost_size;     // of the text
int ghost_got;      // how many characters of the text were written
}
enum State { VALUE, FIRST_ELEMENT, FIRST_NAME, NAME, COLON, AFTER, TEXT, ESCAPED, HEX4, HEX3, HEX2, HEX1, WORD = 100 };
enum Level { OUT, ARRAY, OBJECT, ARRAY_ARRAY, ARRAY_OBJECT, OBJECT_ARRAY, OBJECT_OBJECT };
static bool isObject() { return ghost_in == OBJECT || ghost_in == ARRAY_OBJECT || ghost_in == OBJECT_OBJECT; }
static int parent() { return ghost_in == ARRAY || ghost_in == OBJECT ? OUT : ghost_in == ARRAY_ARRAY || ghost_in == ARRAY_OBJECT ? ARRAY : OBJECT; }
static bool isName;         // the text is a name
static int hex;
static const char* sent;    // the text that is written
static int sentSize;
static constexpr char words[] = "true false null ";
static void decoded(int c) {
	if (ghost_got < 2) {
		sa_check(ghost_got < sentSize && (c & 0xff) == (sent[ghost_got] & 0xff), "C08 a text in JSON denotes the characters that were written");
		ghost_got++;
	}
}
static void bad() {
	sa_check(false, "C08 what is written is JSON");
	sa_assume(false);
}
static void value(int letter) {
	if (letter == '"') { ghost_state = TEXT; isName = false; ghost_got = 0; }
	else if (letter == '[' || letter == '{') {
		bool object = (letter == '{');
		if (ghost_in == OUT) ghost_in = object ? OBJECT : ARRAY;
		else if (ghost_in == ARRAY) ghost_in = object ? ARRAY_OBJECT : ARRAY_ARRAY;
		else if (ghost_in == OBJECT) ghost_in = object ? OBJECT_OBJECT : OBJECT_ARRAY;
		else bad();
		ghost_state = object ? FIRST_NAME : FIRST_ELEMENT;
	} else if (letter == 't') ghost_state = WORD + 1;
	else if (letter == 'f') ghost_state = WORD + 6;
	else if (letter == 'n') ghost_state = WORD + 12;
	else bad();
}
static void end(bool object) {
	if (ghost_in == OUT || isObject() != object) bad();
	ghost_in = parent();
	ghost_state = AFTER;
}
static void feed(char c) {
	if (ghost_number) { // made by std::to_chars, its digits are not known
		if (sa_definite(!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && c != '-' && c != '+' && c != '.' && c != 'E' && c != ' ')) bad();
		ghost_number = 2;
		return;
	}
	if (ghost_state == TEXT) {
		if (c == '"') {
			sa_check(ghost_got >= 2 || ghost_got == sentSize, "C08 a text in JSON denotes the characters that were written");
			ghost_state = isName ? COLON : AFTER;
		} else if (c == '\\') ghost_state = ESCAPED;
		else {
			if ((unsigned char)c < 0x20) bad();
			decoded(c);
		}
	} else if (ghost_state == ESCAPED) {
		ghost_state = TEXT;
		if (c == 'n') decoded('\n');
		else if (c == 't') decoded('\t');
		else if (c == 'r') decoded('\r');
		else if (c == 'b') decoded('\b');
		else if (c == 'f') decoded('\f');
		else if (c == '"') decoded('"');
		else if (c == '\\') decoded('\\');
		else if (c == '/') decoded('/');
		else if (c == 'u') { ghost_state = HEX4; hex = 0; }
		else bad();
	} else if (ghost_state >= HEX4 && ghost_state <= HEX1) {
		if (c >= '0' && c <= '9') hex = hex * 16 + (c - '0');
		else if (c >= 'a' && c <= 'f') hex = hex * 16 + (c - 'a' + 10);
		else if (c >= 'A' && c <= 'F') hex = hex * 16 + (c - 'A' + 10);
		else bad();
		ghost_state++;
		if (ghost_state > HEX1) {
			ghost_state = TEXT;
			decoded(hex); // only control characters
		}
	} else if (ghost_state > WORD) {
		if (c != words[ghost_state - WORD]) bad();
		ghost_state++;
		if (words[ghost_state - WORD] == ' ') ghost_state = AFTER;
	} else if (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
	} else if (ghost_state == VALUE) value(c);
	else if (ghost_state == FIRST_ELEMENT) {
		if (c == ']') end(false);
		else value(c);
	} else if (ghost_state == FIRST_NAME || ghost_state == NAME) {
		if (c == '"') { ghost_state = TEXT; isName = true; ghost_got = 0; }
		else if (c == '}' && ghost_state == FIRST_NAME) end(true);
		else bad();
	} else if (ghost_state == COLON) {
		if (c != ':') bad();
		ghost_state = VALUE;
	} else { // AFTER
		if (c == ',' && ghost_in != OUT) ghost_state = isObject() ? NAME : VALUE;
		else if (c == ']') end(false);
		else if (c == '}') end(true);
		else bad();
	}
}
struct Sink {
	Sink& operator+=(char c) {
		feed(c);
		return *this;
	}
	Sink& operator+=(std::string_view text) {
		if (ghost_number) {
			sa_check(text.size() >= 1, "C08 a number has digits");
			ghost_number = 2;
			return *this;
		}
		for (char c : text) feed(c);
		return *this;
	}
	Sink& operator+=(const char* text) { return *this += std::string_view(text); }
};
using Output = BasicJson<std::string, Sink>::Output;
static IStructuredOutput::Flags flags() { return IStructuredOutput::Flags(sa_int(0, 0x1ff)); }
static char letter() {
	if (sa_bool()) return ghost_letter = char(sa_enum(0, 0x1f));
	ghost_letter = -1;
	char c = sa_buf(1)[0];
	sa_assume((unsigned char)c >= 0x20);
	return c;
}
static void anyText(char* to) {
	sent = to;
	sentSize = ghost_size = sa_enum(0, 2);
	if (sentSize > 0) to[0] = letter();
	if (sentSize > 1) {
		to[1] = sa_buf(1)[0];
		sa_assume((unsigned char)to[1] >= 0x20);
	}
}
static bool truth() {
	ghost_flag = sa_enum(0, 1);
	return ghost_flag;
}
static void numberWritten() {
	sa_check(ghost_number == 2 && (ghost_state == VALUE || ghost_state == FIRST_ELEMENT), "C08 each value is written as a whole");
	ghost_number = 0;
	ghost_state = AFTER;
}
static void scalar(IStructuredOutput& out) {
	switch (sa_enum(0, 5)) {
		case 0: ghost_number = 1; out.writeInt(flags(), sa_int(-(1l << 60), 1l << 60)); numberWritten(); break;
		case 1: ghost_number = 1; out.writeFloat(flags(), sa_int(0, 1000) / 3.0); numberWritten(); break;
		case 2: {
			sent = "a\"";
			sentSize = 2;
			out.writeString(flags(), "a\"");
			break;
		}
		case 3: out.writeBool(flags(), truth()); break;
		case 4: out.writeNull(flags()); break;
		default: out.writeOptional(flags(), truth(), [&] { out.writeBool(flags(), truth()); });
	}
	sa_check(ghost_state == AFTER, "C08 each value is written as a whole");
	ghost_flag = 0;
}
static void name(IStructuredOutput& out, int index) {
	sent = "n";
	sentSize = 1;
	out.introduceObjectMember(flags(), "n", index);
	sa_check(ghost_state == VALUE, "C08 a name is followed by a colon");
}
template <int Depth>
static void anyValue(IStructuredOutput& out) {
	if constexpr (Depth < 2) {
		if (sa_bool()) {
			bool empty = sa_bool();
			int size = sa_bool() ? IStructuredOutput::UNKNOWN_SIZE : empty ? 0 : int(sa_int(1, 1000));
			if (sa_bool()) {
				out.startWritingArray(flags(), size);
				if (!empty) {
					out.introduceArrayElement(flags(), 0);
					anyValue<Depth + 1>(out);
					while (sa_bool()) {
						out.introduceArrayElement(flags(), sa_int(1, 1000));
						anyValue<Depth + 1>(out);
					}
				}
				out.endWritingArray(flags());
			} else {
				out.startWritingObject(flags(), size);
				if (!empty) {
					name(out, 0);
					anyValue<Depth + 1>(out);
					while (sa_bool()) {
						name(out, sa_int(1, 1000));
						anyValue<Depth + 1>(out);
					}
				}
				out.endWritingObject(flags());
			}
			sa_check(ghost_state == AFTER, "C08 each value is written as a whole");
			return;
		}
	}
	scalar(out);
}
static void reset() {
	ghost_state = VALUE;
	ghost_in = OUT;
	ghost_flag = ghost_number = ghost_got = ghost_letter = ghost_size = 0;
}
extern "C" void scn_json_write_structure() {
	Sink sink;
	Output out(sink);
	reset();
	anyValue<0>(out);
	sa_check(ghost_state == AFTER && ghost_in == OUT, "C08 everything started is ended");
	sa_reach("written");
}
extern "C" void scn_json_write_text() {
	Sink sink;
	Output out(sink);
	reset();
	char text[2];
	anyText(text);
	if (sa_bool()) {
		out.writeString(flags(), std::string_view(text, sentSize));
		sa_check(ghost_state == AFTER, "C08 each value is written as a whole");
		sa_reach("text");
	} else {
		out.startWritingObject(flags(), 1);
		out.introduceObjectMember(flags(), std::string_view(text, sentSize), 0);
		sa_check(ghost_state == VALUE, "C08 a name is followed by a colon");
		sa_reach("name");
	}
}
