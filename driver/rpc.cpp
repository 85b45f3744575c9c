// The JSON-RPC protocol between any request and any method: reading and writing JSON is replaced
// by structured input that yields anything and structured output that watches the order of what is written
#include "sa.hpp"
#include <memory_resource>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
extern "C" {
int ghost_written;  // state of the response, see enum Written
int ghost_depth;    // levels of objects and arrays inside the response being written
int ghost_id;       // whether an id was read
int ghost_called;   // whether the method was called
int ghost_member;   // what is read now
int ghost_method;   // whether the method was found
int ghost_params;   // whether the params were seen
int ghost_some;     // whether the array of responses is not empty
int ghost_broken;   // whether the request is wrong or its method failed
int ghost_place;    // place in the request, see enum Place
}
enum Written { NOTHING, OPEN, VERSION_NAME, VERSION, ID_NAME, ID, ANSWER_NAME, ANSWER, DONE };
enum Member { NO_MEMBER, IS_VERSION, IS_ID, IS_METHOD, IS_PARAMS };
enum Place { START, MEMBERS = 10, VALUE = 20, PAST_VALUE, PARAMS = 30, PAST_PARAMS, END = 40, SKIPPED = END };

static bool batch;           // an array of requests
static bool arrayOpen;       // the array of responses
static bool introduced;      // an element of the array of responses
static int idKind;           // 1 number, 2 text, 3 fractional number, 4 none of these
static long idNumber;
static double idFraction;
static std::string_view idText;
static void idIs(int kind) {
	if (ghost_member == IS_ID) {
		ghost_id = 1;
		idKind = kind;
	}
}
namespace Bomba {
template <>
struct BasicJson<std::pmr::string, GeneralisedBuffer> {
	struct Input : IStructuredInput {
		explicit Input(std::string_view) {}
		static void mayFail() {
			if (batch && ghost_member != IS_PARAMS && ghost_place != START) return;
			if (sa_bool()) {
				ghost_broken = 1;
				parseError("any");
			}
		}
		MemberType identifyType(Flags) override {
			if (batch && ghost_place != START) return TYPE_INTEGER;
			if (ghost_place != START) return MemberType(sa_enum(TYPE_INTEGER, TYPE_INVALID));
			return batch ? TYPE_ARRAY : TYPE_OBJECT;
		}
		int64_t readInt(Flags) override {
			advance();
			long value = sa_int(-1000000, 1000000);
			idIs(1);
			idNumber = value;
			return value;
		}
		double readFloat(Flags) override {
			advance();
			idIs(3);
			return idFraction = 1.5;
		}
		std::string_view readString(Flags) override {
			advance();
			if (ghost_member == IS_VERSION) {
				if (sa_bool()) return "2.0";
				ghost_broken = 1;
				return "1.0";
			}
			idIs(2);
			if (ghost_member == IS_ID) return idText;
			return "m";
		}
		bool readBool(Flags) override {
			advance();
			other();
			return sa_bool();
		}
		void readNull(Flags) override {
			advance();
			other();
		}
		static void advance() {
			mayFail();
			sa_check(ghost_place == VALUE || ghost_place == PARAMS || ghost_place == START, "C20 what is read is the value of a member");
			ghost_place = (ghost_place == VALUE) ? PAST_VALUE : (ghost_place == PARAMS) ? PAST_PARAMS : END;
		}
		void skipObjectElement(Flags) override {
			advance();
			other();
		}
		static void other() { if (ghost_id == 0) idIs(4); }
		static void atEnd() {
			if (ghost_id) sa_check(ghost_written == DONE, "C20 a request with id has a response");
			if (ghost_method && !ghost_broken) sa_check(ghost_called, "C20 the method of a right request is called");
		}
		void startReadingArray(Flags) override {
			mayFail();
			ghost_place = END;
		}
		bool nextArrayElement(Flags) override {
			sa_check(ghost_place == END, "C20 the next request of an array is read from where the previous one ends");
			mayFail();
			ghost_place = START;
			atEnd();
			ghost_id = ghost_called = ghost_method = ghost_params = ghost_broken = ghost_written = 0;
			return sa_bool();
		}
		void endReadingArray(Flags) override { mayFail(); }
		static bool member(Member read, Callback<bool(std::optional<std::string_view>, int)>& onEach) {
			if (batch && sa_bool()) return true;
			std::string_view name;
			ghost_member = read;
			ghost_place = VALUE;
			if (read == IS_VERSION) name = "jsonrpc";
			else if (read == IS_ID) {
				name = "id";
				sa_check(!ghost_called || ghost_id, "C20 a method of a request with id is not called as a notification");
			}
			else if (read == IS_METHOD) name = "method";
			else if (read == IS_PARAMS) {
				name = "params";
				ghost_place = PARAMS;
				sa_check(!ghost_called || ghost_params, "C20 a method gets the params of its request");
				if (!ghost_called) ghost_params = 1;
			} else {
				name = "other";
				ghost_broken = 1;
			}
			bool more = onEach(name, 0);
			ghost_member = NO_MEMBER;
			if (!more) return false;
			sa_check(ghost_place == (read == IS_PARAMS ? PAST_PARAMS : PAST_VALUE), "C20 each member of the request is read once");
			mayFail();
			ghost_place = MEMBERS;
			return true;
		}
		void readObject(Flags, Callback<bool(std::optional<std::string_view>, int)> onEach) override {
			struct AtEnd { ~AtEnd() { ghost_member = NO_MEMBER; } } atEnd;
			if (ghost_member != NO_MEMBER) { // parameters
				skipObjectElement({});
				return;
			}
			sa_check(ghost_place == START, "C20 a request is read from its start");
			ghost_id = ghost_called = ghost_method = ghost_params = 0;
			ghost_broken = 0;
			mayFail();
			ghost_place = MEMBERS;
			if (batch) { // all orders of members are covered by single requests
				if (!member(IS_ID, onEach) || !member(IS_METHOD, onEach) || !member(IS_PARAMS, onEach)) return;
			} else {
				while (sa_bool()) {
					if (!member(Member(sa_enum(NO_MEMBER, IS_PARAMS)), onEach)) return;
				}
			}
			ghost_place = END;
		}
		bool readOptional(Flags, Callback<> readValue) override {
			if (sa_bool()) return false;
			readValue();
			return true;
		}
		Location storePosition(Flags) override { return Location{ghost_place}; }
		void restorePosition(Flags, Location to) override {
			sa_check(to.loc != Location::UNINITIALISED, "C20 only places that were stored are returned to");
			ghost_place = to.loc;
		}
	};
	struct Output : IStructuredOutput {
		explicit Output(GeneralisedBuffer&) {}
		static void start() {
			if (ghost_depth == 0) {
				sa_check(ghost_written == NOTHING, "C20 one value is written as the response");
				sa_check(introduced == batch, "C20 responses in an array are separated");
				ghost_written = OPEN;
			}
			ghost_depth++;
		}
		static void end() {
			ghost_depth--;
			if (ghost_depth == 0) {
				sa_check(ghost_written == ANSWER, "C20 a response has one result or one error");
				ghost_written = DONE;
				introduced = false;
			} else value();
		}
		static void value() {
			if (ghost_depth == 0) sa_check(false, "C20 a response is an object");
			if (ghost_depth != 1) return;
			sa_check(ghost_written == VERSION_NAME || ghost_written == ID_NAME || ghost_written == ANSWER_NAME, "C20 a value in a response has a name");
			if (ghost_written < ANSWER) ghost_written++;
		}
		static bool isId() { return ghost_depth == 1 && ghost_written == ID_NAME; }
		void writeInt(Flags, int64_t number) override {
			if (isId()) sa_check(idKind == 1 && number == idNumber, "C20 the response has the id of the request");
			value();
		}
		void writeFloat(Flags, double) override {
			if (isId()) sa_check(idKind == 3, "C20 the response has the id of the request");
			value();
		}
		void writeString(Flags, std::string_view text) override {
			if (isId()) sa_check(idKind == 2 && text.data() == idText.data() && text.size() == idText.size(), "C20 the response has the id of the request");
			value();
		}
		void writeBool(Flags, bool) override {
			if (isId()) sa_check(false, "C20 the response has the id of the request");
			value();
		}
		void writeNull(Flags) override {
			if (isId()) sa_check(idKind == 4, "C20 the response has the id of the request");
			value();
		}
		void startWritingArray(Flags, int) override {
			if (batch && ghost_depth == 0) {
				sa_check(!arrayOpen, "C20 the array of responses is written once");
				arrayOpen = true;
			} else start();
		}
		void introduceArrayElement(Flags, int index) override {
			if (ghost_depth > 0) return;
			sa_check(arrayOpen, "C20 the array of responses is written once");
			sa_assume(index < 1000000);
			sa_check((index == 0) == (ghost_some == 0), "C20 only the first response in an array has index zero");
			ghost_some = 1;
			introduced = true;
		}
		void endWritingArray(Flags) override {
			if (ghost_depth > 0) end();
			else {
				sa_check(arrayOpen, "C20 the array of responses is written once");
				arrayOpen = false;
			}
		}
		void startWritingObject(Flags, int) override {
			if (ghost_depth == 0) sa_check(ghost_id != 0, "C20 a request without id gets no response");
			start();
		}
		void introduceObjectMember(Flags, std::string_view name, int) override {
			if (ghost_depth != 1) return;
			if (name == "jsonrpc") {
				sa_check(ghost_written == OPEN, "C20 the version is written once and first");
				ghost_written = VERSION_NAME;
			} else if (name == "id") {
				sa_check(ghost_written == VERSION, "C20 the id is written once");
				ghost_written = ID_NAME;
			} else {
				sa_check(name == "result" || name == "error", "C20 a response has nothing but jsonrpc, id and result or error");
				sa_check(ghost_written == ID, "C20 a response has only one result or error");
				if (name == "error") sa_check(ghost_broken || !ghost_method, "C20 a call that did not fail is not answered by an error");
				else sa_check(ghost_called && !ghost_broken, "C20 a call that failed is not answered by a result");
				ghost_written = ANSWER_NAME;
			}
		}
		void endWritingObject(Flags) override { end(); }
		void writeOptional(Flags, bool present, Callback<> writeValue) override { if (present) writeValue(); else value(); }
	};
};
}
#include "bomba_json_rpc.hpp"
using namespace Bomba;
struct AnyCallable : IRemoteCallable {
	bool call(IStructuredInput* arguments, IStructuredOutput& result, Callback<> introduceResult,
			Callback<void(std::string_view)> introduceError, std::optional<UserId>) const override {
		sa_check(!ghost_called, "C20 a method is called once for a request");
		ghost_called = 1;
		ghost_broken = 1;
		if (sa_bool()) return false; // not a method
		ghost_broken = 0;
		sa_reach("called");
		if (ghost_params) {
			sa_check(arguments != nullptr, "C20 a method gets the params of its request");
			sa_check(ghost_place == PARAMS, "C20 a method reads the params of its request");
			if (arguments) arguments->skipObjectElement({});
		} else sa_check(!arguments, "C20 a request without params gives none to the method");
		switch (sa_enum(0, 2)) {
			case 0: ghost_broken = 1; remoteError("any");
			case 1: ghost_broken = 1; introduceError("any"); break;
			default: introduceResult(); result.writeInt({}, 1);
		}
		return true;
	}
	const IRemoteCallable* getChild(std::string_view) const override;
};
const IRemoteCallable* AnyCallable::getChild(std::string_view) const {
	if (sa_bool()) return nullptr;
	ghost_method = 1;
	return this;
}
struct Starter : IWriteStarter {
	void writeUnknownSize(std::string_view, Callback<void(GeneralisedBuffer&)> filler) override {
		NonOwningStreamingBuffer<64> buffer([] (std::span<const char>) {});
		filler(buffer);
	}
	void writeKnownSize(std::string_view, int64_t, Callback<void(GeneralisedBuffer&)> filler) override {
		NonOwningStreamingBuffer<64> buffer([] (std::span<const char>) {});
		filler(buffer);
	}
};
static void request() {
	AnyCallable callable;
	JsonRpcServerProtocol<std::pmr::string> protocol(callable);
	Starter starter;
	SA::Arbitrary body(0, 1000), id(0, 1000);
	idText = id;
	ghost_written = ghost_depth = ghost_id = ghost_called = ghost_member = ghost_method = ghost_params = ghost_broken = 0;
	ghost_place = START;
	arrayOpen = introduced = false;
	ghost_some = 0;
	bool answered = false;
	try {
		answered = protocol.post("/", "application/json", body, starter);
	} catch (...) {
		return;
	}
	if (answered) {
		sa_reach("answered");
		sa_check(ghost_depth == 0, "C20 the response is complete");
		if (batch) sa_check(!arrayOpen, "C20 the array of responses is complete");
		else BasicJson<std::pmr::string, GeneralisedBuffer>::Input::atEnd();
	}
}
extern "C" void scn_json_rpc_request() {
	batch = false;
	request();
}
extern "C" void scn_json_rpc_requests() {
	batch = true;
	request();
}
