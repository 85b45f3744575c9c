// Paths of methods: what is constructed for a method finds that method
#include "text.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
extern "C" {
int ghost_leaf;
int ghost_length; // of names
int ghost_wrong;
}
struct Node : IRemoteCallable {
	const char* name = "";
	Node* children[3] = {};
	using IRemoteCallable::getChild;
	const IRemoteCallable* getChild(std::string_view sought) const override {
		for (Node* it : children) if (it && sought == it->name) return it;
		return nullptr;
	}
	std::pair<std::string_view, int> childName(const IRemoteCallable* child) const override {
		for (int i = 0; i < 3; i++) if (children[i] == child) return {children[i]->name, i};
		return {"", NO_SUCH_STRUCTURE};
	}
	void add(int index, Node* child, const char* as) {
		children[index] = child;
		child->name = as;
		setSelfAsParent(child);
	}
};
template <StringLiteral Separator>
static void back() {
	Node root, group, deep, a, b, c, d, e;
	root.add(0, &a, "a");
	root.add(1, &group, "group");
	root.add(2, &b, "ab");
	group.add(0, &deep, "d");
	group.add(1, &c, "group");
	group.add(2, &d, "a");
	deep.add(0, &e, "ab");
	using Path = PathWithSeparator<Separator, Text>;
	Node* leaves[] = { &root, &a, &b, &c, &d, &e };
	ghost_leaf = sa_enum(0, 5);
	Node* leaf = leaves[ghost_leaf];
	Text path = Path::constructPath(leaf);
	sa_check(Path::findCallable(path, &root) == leaf, "C19 the path of a method finds the method");
	Text expected;
	if (ghost_leaf == 1) expected += "a";
	if (ghost_leaf == 2) expected += "ab";
	if (ghost_leaf >= 3) { expected += "group"; expected += Separator.c_str(); }
	if (ghost_leaf == 3) expected += "group";
	if (ghost_leaf == 4) expected += "a";
	if (ghost_leaf == 5) { expected += "d"; expected += Separator.c_str(); expected += "ab"; }
	sa_check(std::string_view(path) == std::string_view(expected), "C19 the path of a method consists of the names on the way to it");
	const char* wrongs[] = { "b", "grou", "groupa", "group" , "aa", "abc"};
	ghost_wrong = sa_enum(0, 5);
	Text wrong;
	if (ghost_leaf) { wrong += std::string_view(path); wrong += Separator.c_str(); }
	wrong += wrongs[ghost_wrong];
	ghost_length += 3 * sa_enum(0, 1);
	if (ghost_length >= 3) { // and something behind it
		wrong += Separator.c_str();
		wrong += "a";
	}
	const IRemoteCallable* found = Path::findCallable(wrong, &root);
	sa_check(found == (ghost_leaf == 0 && ghost_wrong == 3 ? (ghost_length >= 3 ? &d : &group) : nullptr), "C19 a path that does not exist finds nothing");
	sa_reach("found");
}
extern "C" void scn_path_back() {
	ghost_length = sa_enum(0, 2);
	if (ghost_length == 0) back<".">();
	else if (ghost_length == 1) back<"/">();
	else back<"::">();
}
