// Members of Serialisable objects are found by instantiating functions in an order that only gcc uses, so they are listed here
#pragma once
#define SA_MEMBER(CHILD, TYPE, NAME) static_assert(addMember<CHILD, 0, &serialiseWithOffset<TYPE, NAME>, &deserialiseWithOffset<TYPE, NAME>, \
		&describeMember<TYPE, NAME>, &addMemberType<TYPE>, NAME, SerialisationFlags::NONE>::done)
// The analysis starts without initialised global variables
template <typename T>
void prepareObject() {
	Serialisable<T>::setup();
}
template <typename T>
struct List { // like std::vector
	using value_type = T;
	T items[4];
	int count = 0;
	T& operator[](int index) {
		sa_check(index >= 0 && index < count, "C13 only elements that exist are accessed");
		return items[index];
	}
	const T& operator[](int index) const { return const_cast<List&>(*this)[index]; }
	template <typename T2>
	T& emplace_back(T2&& value) {
		sa_assume(count < 4);
		items[count] = value;
		return items[count++];
	}
	template <typename T2>
	void push_back(T2&& value) { emplace_back(value); }
	void resize(int size) {
		sa_assume(size <= 4);
		while (count > size) count--;
		while (count < size) items[count++] = T();
	}
	void reserve(int) {}
	int size() const { return count; }
	bool empty() const { return count == 0; }
	void clear() { count = 0; }
	T* begin() { return items; }
	T* end() { return items + count; }
	const T* begin() const { return items; }
	const T* end() const { return items + count; }
	T& back() { return (*this)[count - 1]; }
};
using Name = SizedText<8>;
struct Pair {
	Name first;
	int32_t second = 0;
};
struct Map : List<Pair> { // like std::map
	using key_type = Name;
	using mapped_type = int32_t;
	Pair* find(const Name& name) {
		for (int i = 0; i < count; i++) if (std::string_view(items[i].first) == std::string_view(name)) return items + i;
		return end();
	}
	int32_t& operator[](const Name& name) {
		Pair* found = find(name);
		if (found == end()) {
			sa_assume(count < 4);
			found = items + count++;
			found->first = name;
			found->second = 0;
		}
		return found->second;
	}
};
