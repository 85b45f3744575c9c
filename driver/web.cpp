// Methods called from pages: forms that are in the path of a GET request or in the body of a POST request
#include "text.hpp"
#include "blob.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
namespace Flag = SerialisationFlags;
extern "C" {
int ghost_path;   // which path is requested
int ghost_form;   // what the form has: 0 there is none, 1 both arguments, 2 one argument, 3 nothing
int ghost_file;   // what the provider of files does: 0 nothing, 1 known size, 2 unknown size, 3 fails
int ghost_fails;  // whether the method fails (1), answers nothing (2)
int ghost_called; // number of calls
int ghost_asked;  // for the file
int ghost_started; // response: 0 not started, 1 started, 2 finished
int ghost_swapped; // order of arguments
int ghost_thrown;
}
struct Method;
static const Method* expected;
static const char* expectedPath;
static char letter;
static const char* gets = "C24 a method called by a form gets what is in the form";
struct Method : IRemoteCallable {
	const char* name = "";
	Method* children[2] = {};
	void add(int index, Method* child, const char* as) {
		children[index] = child;
		child->name = as;
		setSelfAsParent(child);
	}
	using IRemoteCallable::getChild;
	const IRemoteCallable* getChild(std::string_view sought) const override {
		for (Method* it : children) if (it && sought == it->name) return it;
		return nullptr;
	}
	bool call(IStructuredInput* arguments, IStructuredOutput& output, Callback<> introduceResult,
			Callback<void(std::string_view)> introduceError, std::optional<UserId>) const override {
		sa_check(ghost_called == 0 && this == expected, "C24 the method meant by a form is called, once");
		ghost_called++;
		sa_check(arguments, gets);
		int one = -1, two = -1;
		arguments->readObject(Flag::NONE, [&] (std::optional<std::string_view> name, int index) {
			sa_check(name.has_value() && index == (one >= 0 || two >= 0), gets);
			if (*name == "one") {
				sa_check(one < 0 && arguments->readInt(Flag::INT_32) == 54, gets);
				one = index;
			} else if (*name == "two") {
				auto text = arguments->readString(Flag::NONE);
				sa_check(two < 0 && text.size() == 5 && text[0] == 'a' && text[1] == ' ' && text[2] == '&' && text[3] == '?' && text[4] == letter, gets);
				two = index;
			} else sa_check(false, gets);
			return true;
		});
		if (ghost_form == 1) sa_check(one == ghost_swapped && two == !ghost_swapped, gets);
		else if (ghost_form == 2) sa_check(ghost_swapped ? one == 0 && two < 0 : two == 0 && one < 0, gets);
		else sa_check(one < 0 && two < 0, gets);
		if (ghost_fails == 1) sa_throw_any();
		if (ghost_fails == 2) {
			introduceError("No");
			return false;
		}
		introduceResult();
		output.writeInt(Flag::INT_32, 38);
		return true;
	}
};
static const char* answers = "C24 the response is the file, or the result if there is no file";
struct Starter : IWriteStarter {
	LongText body;
	int64_t size = -1;
	bool file = false; // whether the response should be the file
	void start(std::string_view type, Callback<void(GeneralisedBuffer&)>& filler) {
		sa_check(ghost_started == 0, "C24 only one response is given");
		sa_check(type == (file ? "text/any" : "application/x-www-form-urlencoded"), answers);
		ghost_started = 1;
		ExpandingBuffer<64, Blob> buffer;
		filler(buffer);
		body += std::string_view(buffer);
		ghost_started = 2;
	}
	void writeUnknownSize(std::string_view resourceType, Callback<void(GeneralisedBuffer&)> filler) override { start(resourceType, filler); }
	void writeKnownSize(std::string_view resourceType, int64_t known, Callback<void(GeneralisedBuffer&)> filler) override {
		size = known;
		start(resourceType, filler);
	}
};
struct Provider : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		sa_check(path == expectedPath, "C24 a file is sought by the path without the form");
		sa_check(ghost_asked == 0, "C24 a file is sought once");
		ghost_asked = 1;
		if (ghost_file == 3) sa_throw_any();
		auto write = [] (GeneralisedBuffer& to) { to += "file"; };
		static_cast<Starter&>(writer).file = true;
		if (ghost_file == 1) writer.writeKnownSize("text/any", 4, write);
		if (ghost_file == 2) writer.writeUnknownSize("text/any", write);
		static_cast<Starter&>(writer).file = false;
		return ghost_file;
	}
};
struct Tree {
	Method root, a, group, b;
	Tree() {
		root.add(0, &a, "a");
		root.add(1, &group, "group");
		group.add(0, &b, "b");
	}
};
static const char* paths[] = { "/a", "/group/b", "/group", "/none", "/a/b", "/grou/b", "/group/bb", "/b" };
static void prepare(Tree& tree) {
	ghost_called = ghost_asked = ghost_started = ghost_thrown = 0;
	ghost_path = sa_enum(0, 7);
	ghost_swapped = sa_enum(0, 1);
	ghost_fails = sa_enum(0, 2);
	expectedPath = paths[ghost_path];
	expected = ghost_path == 0 ? &tree.a : ghost_path == 1 ? &tree.b : ghost_path == 2 ? &tree.group : nullptr;
	letter = sa_buf(1)[0];
	sa_assume(letter >= 'a' && letter <= 'z');
}
static void form(Text& to) {
	if (ghost_form == 3) return;
	bool both = ghost_form == 1;
	if (!ghost_swapped && both) to += "one=54&";
	if (!ghost_swapped || both) {
		to += "two=a+%26?";
		to += letter;
	}
	if (ghost_swapped) to += both ? "&one=54" : "one=54";
}
extern "C" void scn_web_get() {
	Tree tree;
	prepare(tree);
	ghost_form = sa_enum(0, 3);
	ghost_file = sa_enum(0, 3);
	Text requested;
	requested += expectedPath;
	if (ghost_form) {
		requested += '?';
		form(requested);
	}
	Provider provider;
	Starter writer;
	RpcGetResponder<Text> responder(provider, tree.root);
	bool found = false;
	try {
		found = responder.get(requested, writer);
	} catch (...) {
		ghost_thrown = 1;
	}
	bool calls = ghost_form && expected;
	if (ghost_file == 3) sa_check(ghost_thrown && ghost_called <= calls && ghost_started == 0, "C24 failing to read a file is an error");
	else {
		sa_check(ghost_called == calls, "C24 the method meant by a form is called, once");
		bool fails = calls && ghost_fails == 1;
		if (!fails) sa_check(!ghost_thrown && found == (ghost_file || calls), "C24 a path of no file and no method is not found");
		else sa_check(ghost_thrown, "C24 a failure of a method is an error");
		if (ghost_file) sa_check(ghost_started == 2 && std::string_view(writer.body) == "file" && (ghost_file == 2 || writer.size == 4), answers);
		else if (!calls) sa_check(ghost_started == 0, answers);
		else if (ghost_fails == 0) sa_check(ghost_started == 2 && std::string_view(writer.body) == "38" && (writer.size == -1 || writer.size == 2), answers);
		else sa_check(writer.body.size == 0, answers);
	}
	sa_reach("responded");
}
extern "C" void scn_web_post() {
	Tree tree;
	prepare(tree);
	ghost_form = sa_enum(1, 3);
	Text body;
	form(body);
	Starter writer;
	HtmlPostResponder<Text> responder(tree.root);
	bool found = false;
	try {
		found = responder.post(expectedPath, "application/x-www-form-urlencoded", std::span<char>(body.data, body.size), writer);
	} catch (...) {
		ghost_thrown = 1;
	}
	sa_check(ghost_called == bool(expected), "C24 the method meant by a form is called, once");
	if (expected && ghost_fails == 1) sa_check(ghost_thrown, "C24 a failure of a method is an error");
	else sa_check(!ghost_thrown && found == bool(expected), "C24 a path of no file and no method is not found");
	sa_check(ghost_started == 0, "C24 a posted form has no response");
	sa_reach("responded");
}
