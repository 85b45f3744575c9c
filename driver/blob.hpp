#pragma once
#include "sa.hpp"
struct Blob { // vector of characters of known contents
	char contents[400];
	size_t used = 0;
	void resize(size_t size) { sa_assume(size <= sizeof(contents)); used = size; }
	bool empty() const { return used == 0; }
	size_t size() const { return used; }
	char* data() { return contents; }
	const char* data() const { return contents; }
	char* begin() { return contents; }
	char* end() { return contents + used; }
	const char* begin() const { return contents; }
	const char* end() const { return contents + used; }
	char& operator[](size_t at) { return contents[at]; }
};
