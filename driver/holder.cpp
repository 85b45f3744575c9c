// Functions kept in holders and objects composed of them at runtime
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
using namespace Bomba;
extern "C" {
int sa_exact_strings = 1;
int ghost_kind, ghost_other; // of functions
int ghost_one, ghost_two, ghost_three; // operations
int ghost_alive;  // number of functions that exist
int ghost_called; // which was called
int ghost_child;
int ghost_moved;
int ghost_in_first, ghost_in_second; // which function is in which holder, 0 none
}
static const char* ends = "C23 a function in a holder is destroyed once, with the holder";
template <int Kind>
struct Function { // 0 trivial and as large as can be stored in the holder, 1 small, 2 large, 3 trivial and too large only when wrapped, 4 trivial and large
	static constexpr bool trivial = Kind == 0 || Kind >= 3;
	static constexpr int words = Kind == 0 ? 3 : Kind == 2 ? 8 : Kind == 3 ? 5 : Kind == 4 ? 30 : 1;
	long payload[words];
	explicit Function(int which) {
		for (int i = 0; i < words; i++) payload[i] = which + i;
		if constexpr(!trivial) ghost_alive++;
	}
	Function(const Function& other) requires(trivial) = default;
	Function(const Function& other) requires(!trivial) {
		for (int i = 0; i < words; i++) payload[i] = other.payload[i];
		ghost_alive++;
	}
	~Function() requires(trivial) = default;
	~Function() requires(!trivial) { 
		sa_check(payload[0] > 0, ends);
		payload[0] = -1;
		ghost_alive--;
	}
	void operator()() const {
		sa_check(payload[0] > 0, "C23 functions are called only while they exist");
		for (int i = 0; i < words; i++) sa_check(payload[i] == payload[0] + i, "C23 the function in a holder stays the one put there");
		ghost_called = payload[0];
	}
};
struct NoOutput : NullStructredOutput {} ;
static void call(const IRemoteCallable* it, int which) {
	sa_check(it, "C23 the function in a holder stays the one put there");
	if (!it) return;
	NullStructredOutput output;
	auto nothing = [] {};
	auto error = [] (std::string_view) {};
	ghost_called = 0;
	it->call(nullptr, output, nothing, error, std::nullopt);
	sa_check(ghost_called == which, "C23 the function in a holder stays the one put there");
}
static RpcLambdaHolder make(int kind, int which) {
	if (kind == 0) return RpcLambdaHolder(Function<0>(which));
	if (kind == 1) {
		Function<1> given(which);
		return RpcLambdaHolder(given);
	}
	if (kind == 2) return RpcLambdaHolder(Function<2>(which));
	if (kind == 3) return RpcLambdaHolder(Function<3>(which));
	return RpcLambdaHolder(Function<4>(which));
}
extern "C" void scn_holder_owned() {
	ghost_alive = 0;
	ghost_kind = sa_enum(0, 4);
	ghost_other = sa_enum(0, 4);
	ghost_one = sa_enum(0, 4);
	ghost_two = sa_enum(0, 4);
	{
		RpcLambdaHolder first = make(ghost_kind, 1);
		sa_check(ghost_alive == (ghost_kind == 1 || ghost_kind == 2 ? 1 : 0), ends);
		RpcLambdaHolder second = make(ghost_other, 2);
		call(&*first, 1);
		call(&*second, 2);
		ghost_in_first = 1;
		ghost_in_second = 2;
		auto step = [&] (int what) {
			switch (what) {
				case 0:
					if (!ghost_in_first) break;
					second = std::move(first);
					ghost_in_second = ghost_in_first;
					ghost_in_first = 0;
					break;
				case 1:
					if (!ghost_in_second) break;
					first = std::move(second);
					ghost_in_first = ghost_in_second;
					ghost_in_second = 0;
					break;
				case 2: {
					if (!ghost_in_second) break;
					RpcLambdaHolder moved = std::move(second);
					call(&*moved, ghost_in_second);
					ghost_in_second = 0;
					break;
				}
				case 3: {
					if (!ghost_in_first) break;
					RpcLambdaHolder borrowed = RpcLambdaHolder::nonOwning(*first);
					call(&*borrowed, ghost_in_first);
					RpcLambdaHolder moved = std::move(borrowed);
					call(&*moved, ghost_in_first);
					break;
				}
				case 4:
					second = RpcLambdaHolder(Function<1>(3));
					ghost_in_second = 3;
					break;
			}
			if (ghost_in_first) call(&*first, ghost_in_first);
			if (ghost_in_second) call(&*second, ghost_in_second);
		};
		step(ghost_one);
		step(ghost_two);
	}
	sa_check(ghost_alive == 0, ends);
	sa_reach("ended");
}
static const char* finds = "C23 a composed object finds what was added to it by name and index";
struct Plain : IRemoteCallable {};
static void look(DynamicRpcObject& object, const char* const* names, const int* functions, int count) {
	const IRemoteCallable& callable = object;
	for (int i = 0; i < count; i++) {
		const IRemoteCallable* child = callable.getChild(std::string_view(names[i]));
		call(child, functions[i]);
		if (!child) continue;
		sa_check(callable.getChild(i) == child, finds);
		sa_check(child->parent() == &object, "C23 what is in a composed object knows that object");
		auto [name, index] = callable.childName(child);
		sa_check(name == names[i] && index == i, finds);
	}
	NullStructredOutput output;
	auto nothing = [] { sa_check(false, "C23 a composed object is not a function"); };
	auto error = [] (std::string_view) {};
	ghost_called = 0;
	sa_check(!callable.call(nullptr, output, nothing, error, std::nullopt) && ghost_called == 0, "C23 a composed object is not a function");
	sa_check(!callable.getChild(count), finds);
	sa_check(!callable.getChild(std::string_view("aa")) && !callable.getChild(std::string_view("")), finds);
	Plain stranger;
	sa_check(callable.childName(&stranger).second == IRemoteCallable::NO_SUCH_STRUCTURE, finds);
}
extern "C" void scn_dynamic_found() {
	ghost_alive = 0;
	ghost_kind = sa_enum(0, 4);
	ghost_other = sa_enum(0, 4);
	ghost_moved = sa_enum(0, 1);
	static const char* names[] = { "a", "ab", "b" };
	static const int functions[] = { 1, 2, 3 };
	{
		DynamicRpcObject object;
		object.add("a", make(ghost_kind, 1));
		look(object, names, functions, 1);
		object.add("ab", make(ghost_other, 2));
		look(object, names, functions, 2);
		object.add("b", make(1, 3));
		if (ghost_moved) {
			DynamicRpcObject moved = std::move(object);
			look(moved, names, functions, 3);
		} else look(object, names, functions, 3);
	}
	sa_check(ghost_alive == 0, ends);
	sa_reach("ended");
}
extern "C" void scn_dynamic_nested() {
	ghost_alive = 0;
	ghost_kind = sa_enum(0, 4);
	ghost_moved = sa_enum(0, 1);
	static const char* names[] = { "a", "b" };
	static const int functions[] = { 1, 2 };
	{
		DynamicRpcObject outer;
		{
			DynamicRpcObject inner;
			inner.add("a", make(ghost_kind, 1));
			inner.add("b", make(1, 2));
			if (ghost_moved) {
				RpcLambdaHolder holder(std::move(inner));
				outer.add("inner", std::move(holder));
			} else outer.add("inner", std::move(inner));
		}
		const IRemoteCallable& callable = outer;
		auto nested = const_cast<IRemoteCallable*>(callable.getChild(std::string_view("inner")));
		sa_check(nested && nested == callable.getChild(0) && nested->parent() == &outer, finds);
		if (nested) look(*static_cast<DynamicRpcObject*>(nested), names, functions, 2);
		auto [name, index] = callable.childName(nested);
		sa_check(name == "inner" && index == 0, finds);
	}
	sa_check(ghost_alive == 0, ends);
	sa_reach("ended");
}
