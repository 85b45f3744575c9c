#pragma once
#include "sa.hpp"
template <int Max>
struct SizedText { // a text of known characters
	char data[Max];
	int size = 0;
	SizedText() = default;
	explicit SizedText(std::string_view text) { *this += text; }
	SizedText& operator=(std::string_view text) {
		size = 0;
		return *this += text;
	}
	SizedText(const SizedText& other) { *this += other; }
	SizedText& operator=(const SizedText& other) { return *this = std::string_view(other); }
	SizedText& operator+=(char c) {
		sa_assume(size < Max);
		data[size++] = c;
		return *this;
	}
	SizedText& operator+=(std::string_view text) {
		for (char c : text) *this += c;
		return *this;
	}
	SizedText& operator+=(const char* text) { return *this += std::string_view(text); }
	SizedText& operator+=(const SizedText& text) { return *this += std::string_view(text); }
	operator std::string_view() const { return {data, size_t(size)}; }
	void clear() { size = 0; }
	char* begin() { return data; }
};
using Text = SizedText<100>;
using LongText = SizedText<250>;
static void character(Text& to, int code) {
	if (code < 0x80) to += char(code);
	else if (code < 0x800) { to += char(0xc0 | code >> 6); to += char(0x80 | (code & 0x3f)); }
	else if (code < 0x10000) { to += char(0xe0 | code >> 12); to += char(0x80 | (code >> 6 & 0x3f)); to += char(0x80 | (code & 0x3f)); }
	else { to += char(0xf0 | code >> 18); to += char(0x80 | (code >> 12 & 0x3f)); to += char(0x80 | (code >> 6 & 0x3f)); to += char(0x80 | (code & 0x3f)); }
}
