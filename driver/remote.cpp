// Functions that can be called remotely: what a caller gives to them and takes from them, on both sides of the interface of remote calls
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_rpc_object.hpp"
using namespace Bomba;
namespace Flag = SerialisationFlags;
extern "C" {
int ghost_one, ghost_two, ghost_three, ghost_four; // members read in that order, see enum Member
int ghost_member; // that is being read
int ghost_used;   // how many times the value of the member was used
int ghost_calls;  // of the function
int ghost_fails;  // whether the function does
int ghost_result; // what is written instead of the result: 0 nothing, 1 introduced, 2 written
int ghost_named;  // whether members have names
int ghost_sent;   // how much of the request
int ghost_asked;  // how many times the response was asked for
int ghost_outcome; // of asking for the response: 0 received, 1 not received, 2 exception
int ghost_way;    // how the function is called
int ghost_flag;
int ghost_omit;
}
enum Member { FIRST, FLAG, TEXT, UNKNOWN, END };
using Name = SizedText<8>;
static long given[2]; // last value of each argument
static char givenText[2];
static long returned;
static IRemoteCallable* parentObject;
static const char* gets = "C22 a function gets the arguments it was called with";
static int work(int first, bool flag, std::string_view text) {
	ghost_calls++;
	sa_check(ghost_calls == 1, "C22 a function is called once");
	sa_check(first == given[0] && flag == given[1], gets);
	sa_check(givenText[0] ? text.size() == 2 && text[0] == givenText[0] && text[1] == givenText[1] : text.empty(), gets);
	if (ghost_fails) sa_throw_any();
	return returned;
}
struct Work {
	int operator()(int first = name("first"), bool flag = name("flag"), const Name& text = name("text")) const { return work(first, flag, text); }
};
struct ParentWork {
	int operator()(IRemoteCallable* parent, int first = name("first"), bool flag = name("flag"), Name text = name("text")) const {
		sa_check(parent == parentObject, "C22 a function gets the object it belongs to");
		return work(first, flag, text);
	}
};
struct VoidWork {
	void operator()(int first = name("first"), bool flag = name("flag"), std::string_view text = name("text")) const { work(first, flag, text); }
};
static const char* names[] = { "first", "flag", "text", "firsts" };
static const char* unknown[] = { "firsts", "tex", "", "flagtext" };
template <typename Lambda>
static void prepare() { // the arguments are known from functions called before main
	static Detail::RpcArgumentInfo infos[3];
	for (int i = 0; i < 3; i++) infos[i].name = names[i];
	infos[1].flags = ghost_omit ? Flag::OMIT_FALSE : Flag::NONE;
	Lambda::argumentInfo = infos;
	ghost_calls = ghost_result = ghost_sent = ghost_asked = 0;
	returned = sa_int(-0x80000000l, 0x7fffffff);
}
static const char* once = "C22 each member is read once";
struct Arguments : IStructuredInput {
	void use(int member) {
		sa_check(ghost_member == member && ghost_used == 0, once);
		ghost_used++;
	}
	MemberType identifyType(Flags) override { return TYPE_INTEGER; }
	int64_t readInt(Flags) override {
		use(FIRST);
		return given[0] = sa_int(-0x80000000l, 0x7fffffff);
	}
	double readFloat(Flags) override { sa_check(false, once); return 0; }
	std::string_view readString(Flags) override {
		use(TEXT);
		char* text = sa_buf(2);
		sa_assume(text[0] >= 'a' && text[0] <= 'z');
		givenText[0] = text[0];
		givenText[1] = text[1];
		return {text, 2};
	}
	bool readBool(Flags) override {
		use(FLAG);
		ghost_flag = sa_enum(0, 1);
		given[1] = ghost_flag;
		return ghost_flag;
	}
	void readNull(Flags) override { sa_check(false, once); }
	void skipObjectElement(Flags) override { use(UNKNOWN); }
	void startReadingArray(Flags) override { sa_check(false, once); }
	bool nextArrayElement(Flags) override { return false; }
	void endReadingArray(Flags) override {}
	bool member(int which, int index, Callback<bool(std::optional<std::string_view>, int)>& onEach) {
		ghost_member = which;
		ghost_used = 0;
		bool more = ghost_named ? onEach(std::string_view(which == UNKNOWN ? unknown[index] : names[which]), index) : onEach(std::nullopt, index);
		sa_check(ghost_used == (which == END ? 0 : 1), once);
		return more;
	}
	void readObject(Flags, Callback<bool(std::optional<std::string_view>, int)> onEach) override {
		if (!ghost_named) {
			if (member(FIRST, 0, onEach) && member(FLAG, 1, onEach) && member(TEXT, 2, onEach)) {
				for (int i = 3; i < 10; i++) if (!member(END, i, onEach)) return;
			}
			sa_check(ghost_member == END, "C22 all arguments are read");
			return;
		}
		ghost_one = sa_enum(FIRST, END);
		if (ghost_one == END) return;
		sa_check(member(ghost_one, 0, onEach), "C22 all arguments are read");
		ghost_two = sa_enum(FIRST, END);
		if (ghost_two == END) return;
		sa_check(member(ghost_two, 1, onEach), "C22 all arguments are read");
		ghost_three = sa_enum(FIRST, END);
		if (ghost_three == END) return;
		sa_check(member(ghost_three, 2, onEach), "C22 all arguments are read");
		ghost_four = sa_enum(FIRST, END);
		if (ghost_four == END) return;
		sa_check(member(ghost_four, 3, onEach), "C22 all arguments are read");
	}
	bool readOptional(Flags, Callback<>) override { sa_check(false, once); return false; }
	Location storePosition(Flags) override { return {}; }
	void restorePosition(Flags, Location) override { sa_check(false, once); }
};
static const char* result = "C22 the result of the function is written once, if it did not fail";
struct Result : IStructuredOutput {
	bool isVoid = false;
	void write(bool isNull) {
		sa_check(ghost_result == 1 && isNull == isVoid, result);
		ghost_result = 2;
	}
	void writeInt(Flags, int64_t value) override {
		write(false);
		sa_check(value == returned, result);
	}
	void writeFloat(Flags, double) override { sa_check(false, result); }
	void writeString(Flags, std::string_view) override { sa_check(false, result); }
	void writeBool(Flags, bool) override { sa_check(false, result); }
	void writeNull(Flags) override { write(true); }
	void startWritingArray(Flags, int) override { sa_check(false, result); }
	void introduceArrayElement(Flags, int) override { sa_check(false, result); }
	void endWritingArray(Flags) override { sa_check(false, result); }
	void startWritingObject(Flags, int) override { sa_check(false, result); }
	void introduceObjectMember(Flags, std::string_view, int) override { sa_check(false, result); }
	void endWritingObject(Flags) override { sa_check(false, result); }
	void writeOptional(Flags, bool, Callback<>) override { sa_check(false, result); }
};
struct Parent : IRemoteCallable {
	void adopt(IRemoteCallable& child) { setSelfAsParent(&child); }
};
template <typename Lambda>
static void serve(const Lambda& function, bool isVoid) {
	given[0] = given[1] = givenText[0] = 0;
	ghost_fails = sa_enum(0, 1);
	Parent parent;
	parentObject = &parent;
	parent.adopt(const_cast<Lambda&>(function));
	Arguments arguments;
	Result output;
	output.isVoid = isVoid;
	auto introduce = [] {
		sa_check(ghost_calls == 1 && ghost_result == 0, result);
		ghost_result = 1;
	};
	auto error = [] (std::string_view) { sa_check(false, "C22 no error is reported for a function that did not fail"); };
	bool failed = false, done = false;
	ghost_way = sa_enum(0, 1);
	const IRemoteCallable& callable = function;
	try {
		done = callable.call(ghost_way ? &arguments : nullptr, output, introduce, error, std::nullopt);
	} catch (...) {
		failed = true;
	}
	sa_check(ghost_calls == 1, "C22 a function is called once");
	sa_check(failed == bool(ghost_fails) && ghost_result == (failed ? 0 : 2) && (failed || done), result);
	sa_reach("called");
}
extern "C" void scn_remote_called() {
	ghost_named = sa_enum(0, 1);
	ghost_omit = 0;
	prepare<RpcLambda<Work>>();
	RpcLambda<Work> function{Work()};
	serve(function, false);
}
extern "C" void scn_remote_called_parent() {
	ghost_named = sa_enum(0, 1);
	ghost_omit = 0;
	prepare<RpcLambda<ParentWork>>();
	RpcLambda<ParentWork> function{ParentWork()};
	serve(function, false);
}
extern "C" void scn_remote_called_void() {
	ghost_named = sa_enum(0, 1);
	ghost_omit = 0;
	prepare<RpcLambda<VoidWork>>();
	RpcLambda<VoidWork> function{VoidWork()};
	serve(function, true);
}
static const char* sends = "C22 a request contains the arguments the caller gave, named and in order";
enum Sent { NOT_SENT, OPENED, NAME, VALUE = NAME + 3, CLOSED = VALUE + 3 };
struct Request : IStructuredOutput { // what the caller writes
	int index = 0;
	void introduced(int which) {
		sa_check(ghost_sent == NAME + which, sends);
		ghost_sent = VALUE + which;
	}
	void writeInt(Flags, int64_t value) override {
		introduced(0);
		sa_check(value == given[0], sends);
	}
	void writeString(Flags, std::string_view text) override {
		introduced(2);
		sa_check(text.size() == 2 && text[0] == givenText[0] && text[1] == givenText[1], sends);
	}
	void writeBool(Flags, bool value) override {
		introduced(1);
		sa_check(value == bool(given[1]), sends);
	}
	void startWritingObject(Flags, int size) override {
		sa_check(ghost_sent == NOT_SENT && size == 3, sends);
		ghost_sent = OPENED;
	}
	void introduceObjectMember(Flags, std::string_view name, int index) override {
		bool omitted = ghost_omit && !given[1];
		sa_check(index == 0 ? ghost_sent == OPENED : index == 1 ? ghost_sent == VALUE : index == 2 && ghost_sent == (omitted ? VALUE : VALUE + 1), sends);
		sa_check(index >= 0 && index < 3 && name == names[index], sends);
		ghost_sent = NAME + index;
	}
	void endWritingObject(Flags) override {
		sa_check(ghost_sent == VALUE + 2, sends);
		ghost_sent = CLOSED;
	}
	void writeFloat(Flags, double) override { sa_check(false, sends); }
	void writeNull(Flags) override { sa_check(false, sends); }
	void startWritingArray(Flags, int) override { sa_check(false, sends); }
	void introduceArrayElement(Flags, int) override { sa_check(false, sends); }
	void endWritingArray(Flags) override { sa_check(false, sends); }
	void writeOptional(Flags, bool, Callback<>) override { sa_check(false, sends); }
};
static const char* got = "C22 a caller gets the result of its call once, or an error";
struct Response : Arguments {
	bool isVoid = false;
	int64_t readInt(Flags) override {
		sa_check(!isVoid && ghost_asked == 1, got);
		return returned;
	}
	void readNull(Flags) override { sa_check(isVoid && ghost_asked == 1, got); }
	void readObject(Flags, Callback<bool(std::optional<std::string_view>, int)>) override { sa_check(false, got); }
};
struct Responder : IRpcResponder {
	bool isVoid = false, ready = false;
	const IRemoteCallable* expected = nullptr;
	RequestToken token = { 12 };
	RequestToken send(UserId, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		sa_check(method == expected && ghost_sent == NOT_SENT, sends);
		Request output;
		request(output, token);
		sa_check(ghost_sent == CLOSED, sends);
		return token;
	}
	bool getResponse(RequestToken asked, Callback<void(IStructuredInput&)> reader) override {
		sa_check(asked.id == token.id && ghost_sent == CLOSED, "C22 a caller asks for the response to its request");
		ghost_asked++;
		sa_check(ghost_asked == 1, got);
		if (ghost_outcome == 1) return false;
		if (ghost_outcome == 2) sa_throw_any();
		Response response;
		response.isVoid = isVoid;
		reader(response);
		return true;
	}
	bool hasResponse(RequestToken asked) override {
		sa_check(asked.id == token.id && ghost_sent == CLOSED, "C22 a caller asks for the response to its request");
		return ready;
	}
};
enum Way { DIRECT, LATER, TWICE, MOVED, MOVED_LATER, FORGOTTEN, WAYS };
template <typename Returned>
static Future<Returned> done() {
	if constexpr(std::is_void_v<Returned>) return Future<void>();
	else return Future<Returned>(Returned(5));
}
template <typename Lambda>
static void ask(const Lambda& function, bool isVoid, bool remote) {
	ghost_fails = 0;
	ghost_way = sa_enum(0, WAYS - 1);
	ghost_outcome = remote ? sa_enum(0, 2) : 0;
	given[0] = sa_int(-0x80000000l, 0x7fffffff);
	ghost_flag = sa_enum(0, 1);
	given[1] = ghost_flag;
	Name text;
	givenText[0] = 'x';
	givenText[1] = sa_buf(1)[0];
	text += givenText[0];
	text += givenText[1];
	Responder responder;
	responder.isVoid = isVoid;
	responder.ready = sa_bool();
	responder.expected = &function;
	Parent parent;
	parentObject = &parent;
	if (remote) parent.setResponder(responder);
	parent.adopt(const_cast<Lambda&>(function));
	auto check = [&] (auto&& get) {
		if constexpr(std::is_void_v<decltype(get())>) get();
		else sa_check(get() == returned, got);
		sa_check(ghost_outcome == 0, got);
	};
	bool failed = false;
	try {
		if (ghost_way == DIRECT) check([&] { return function(given[0], given[1], text); });
		else {
			auto later = function.async(given[0], given[1], text);
			sa_check(remote ? ghost_sent == CLOSED && ghost_calls == 0 : ghost_calls == 1, "C22 an asynchronous call is sent at once");
			sa_check(later.is_ready() == (remote ? responder.ready : true), "C22 the result is ready when the response has arrived");
			if (ghost_way == MOVED) {
				auto moved = done<decltype(function(0, false, text))>();
				moved = std::move(later);
				check([&] { return moved.get(); });
			} else if (ghost_way != FORGOTTEN) {
				check([&] { return later.get(); });
				sa_check(later.is_ready(), "C22 the result is ready when the response has arrived");
				if (ghost_way == TWICE) check([&] { return later.get(); });
				if (ghost_way == MOVED_LATER) {
					auto moved = done<decltype(function(0, false, text))>();
					moved = std::move(later);
					check([&] { return moved.get(); });
				}
			}
		}
	} catch (...) {
		failed = true;
	}
	if (ghost_way != FORGOTTEN) sa_check(failed == (ghost_outcome != 0), got);
	else sa_check(!failed, "C22 forgetting the result of a call is no error");
	if (remote) sa_check(ghost_calls == 0 && ghost_sent == CLOSED && (ghost_asked == 1 || ghost_way == FORGOTTEN), got);
	else sa_check(ghost_calls == 1 && ghost_sent == NOT_SENT && ghost_asked == 0, "C22 a function is called once");
	sa_reach("asked");
}
extern "C" void scn_remote_ask() {
	ghost_omit = sa_enum(0, 1);
	prepare<RpcLambda<Work>>();
	RpcLambda<Work> function{Work()};
	ask(function, false, true);
}
extern "C" void scn_remote_ask_parent() {
	ghost_omit = sa_enum(0, 1);
	prepare<RpcLambda<ParentWork>>();
	RpcLambda<ParentWork> function{ParentWork()};
	ask(function, false, true);
}
extern "C" void scn_remote_ask_void() {
	ghost_omit = sa_enum(0, 1);
	prepare<RpcLambda<VoidWork>>();
	RpcLambda<VoidWork> function{VoidWork()};
	ask(function, true, true);
}
extern "C" void scn_remote_local() {
	ghost_omit = 0;
	ghost_named = sa_enum(0, 1);
	if (ghost_named) {
		prepare<RpcLambda<ParentWork>>();
		RpcLambda<ParentWork> function{ParentWork()};
		ask(function, false, false);
	} else {
		prepare<RpcLambda<VoidWork>>();
		RpcLambda<VoidWork> function{VoidWork()};
		ask(function, true, false);
	}
}
