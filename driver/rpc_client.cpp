// The client of JSON-RPC with any response and the order of what it writes into a request
#include "sa.hpp"
#include <memory_resource>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
extern "C" {
int ghost_written;  // state of the request, see enum Written
int ghost_member;   // what is read now
int ghost_version;  // what the response contained: 0 nothing, 1 right, 2 wrong
int ghost_id;
int ghost_error;
int ghost_result;
int ghost_read;     // whether the value was read
}
enum Written { NOTHING, OPEN, VERSION_NAME, VERSION, ID_NAME, ID, METHOD_NAME, METHOD, PARAMS_NAME, PARAMS, COMPLETE };
enum Member { NO_MEMBER, IS_VERSION, IS_ID, IS_RESULT, IS_ERROR };
static long token;
static bool fits;           // whether the response is for the token
static void next(int from) {
	sa_check(ghost_written == from, "C14 a request has its version, id, method and params, each once and in this order");
	ghost_written = from + 1;
}
namespace Bomba {
template <>
struct BasicJson<std::pmr::string, GeneralisedBuffer> {
	struct Input : IStructuredInput {
		explicit Input(std::string_view) {}
		static void mayFail() {
			if (sa_bool()) parseError("any");
		}
		static void value() {
			mayFail();
			sa_check(!ghost_read, "C14 the value of a member is read once");
			ghost_read = 1;
		}
		MemberType identifyType(Flags) override { return MemberType(sa_enum(TYPE_INTEGER, TYPE_INVALID)); }
		int64_t readInt(Flags) override {
			value();
			if (ghost_member == IS_ID) {
				if (fits) {
					if (ghost_id == 0) ghost_id = 1;
					return token;
				}
				ghost_id = 2;
				return token + sa_int(1, 1000);
			}
			return sa_int(-1000, 1000);
		}
		double readFloat(Flags) override { value(); return 1.5; }
		std::string_view readString(Flags) override {
			value();
			if (ghost_member == IS_VERSION) {
				if (sa_bool()) return "2.0";
				ghost_version = 2;
				return "1.0";
			}
			return "text";
		}
		bool readBool(Flags) override { value(); return sa_bool(); }
		void readNull(Flags) override { value(); }
		void skipObjectElement(Flags) override { value(); }
		void startReadingArray(Flags) override { value(); }
		bool nextArrayElement(Flags) override { return sa_bool(); }
		void endReadingArray(Flags) override {}
		void readObject(Flags, Callback<bool(std::optional<std::string_view>, int)> onEach) override {
			if (ghost_member != NO_MEMBER) { // inside of the error
				value();
				while (sa_bool()) {
					ghost_read = 0;
					bool more = sa_bool() ? onEach("message", 0) : sa_bool() ? onEach("code", 0) : onEach("data", 0);
					if (!more) break;
					sa_check(ghost_read, "C14 every member of an error is read");
				}
				ghost_read = 1;
				mayFail();
				return;
			}
			ghost_id = ghost_error = ghost_result = ghost_version = 0;
			mayFail();
			while (sa_bool()) {
				std::string_view name;
				ghost_member = sa_enum(NO_MEMBER, IS_ERROR);
				ghost_read = 0;
				if (ghost_member == IS_VERSION) name = "jsonrpc";
				else if (ghost_member == IS_ID) name = "id";
				else if (ghost_member == IS_RESULT) name = "result";
				else if (ghost_member == IS_ERROR) { name = "error"; ghost_error = 1; }
				else name = "other";
				bool more = onEach(name, 0);
				if (!more) {
					ghost_member = NO_MEMBER;
					return;
				}
				sa_check(ghost_read, "C14 every member of a response is read");
				ghost_member = NO_MEMBER;
				mayFail();
			}
		}
		bool readOptional(Flags, Callback<> readValue) override {
			if (sa_bool()) return false;
			readValue();
			return true;
		}
		Location storePosition(Flags) override { return Location{0}; }
		void restorePosition(Flags, Location) override {}
	};
	struct Output : IStructuredOutput {
		explicit Output(GeneralisedBuffer&) {}
		void writeInt(Flags, int64_t number) override {
			next(ID_NAME);
			sa_check(number == token, "C14 a request has the id its response will have");
		}
		void writeFloat(Flags, double) override { next(PARAMS_NAME); }
		void writeString(Flags, std::string_view text) override {
			if (ghost_written == VERSION_NAME) sa_check(text == "2.0", "C14 a request has version 2.0");
			else sa_check(ghost_written == METHOD_NAME, "C14 a request has its version, id, method and params, each once and in this order");
			next(ghost_written);
		}
		void writeBool(Flags, bool) override { next(PARAMS_NAME); }
		void writeNull(Flags) override { next(PARAMS_NAME); }
		void startWritingArray(Flags, int) override { next(PARAMS_NAME); }
		void introduceArrayElement(Flags, int) override {}
		void endWritingArray(Flags) override {}
		void startWritingObject(Flags, int) override { next(ghost_written == PARAMS_NAME ? PARAMS_NAME : NOTHING); }
		void introduceObjectMember(Flags, std::string_view name, int) override {
			if (name == "jsonrpc") next(OPEN);
			else if (name == "id") next(VERSION);
			else if (name == "method") next(ID);
			else if (name == "params") next(METHOD);
			else sa_check(false, "C14 a request has nothing but version, id, method and params");
		}
		void endWritingObject(Flags) override { next(PARAMS); }
		void writeOptional(Flags, bool, Callback<>) override { next(PARAMS_NAME); }
	};
};
}
#include "bomba_json_rpc.hpp"
using namespace Bomba;
struct Transport {
	bool responded = false;
	bool okay = false;
	RequestToken post(std::string_view contentType, Callback<void(GeneralisedBuffer&, RequestToken)> request) {
		sa_check(contentType == "application/json", "C14 a request has the type application/json");
		NonOwningStreamingBuffer<64> buffer([] (std::span<const char>) {});
		token = sa_int(1, 1000000);
		request(buffer, RequestToken{unsigned(token)});
		sa_check(ghost_written == COMPLETE, "C14 a request is complete");
		sa_reach("sent");
		return RequestToken{unsigned(token)};
	}
	void getResponse(RequestToken for_, Callback<bool(std::span<char>, bool)> reader) {
		sa_check(for_.id == token, "C14 the response to the right request is awaited");
		if (sa_bool()) return; // none received
		responded = true;
		okay = sa_bool();
		SA::Arbitrary body(0, 1000);
		reader(body, okay);
	}
};
struct AnyCallable : IRemoteCallable {
	const IRemoteCallable* getChild(std::string_view) const override { return nullptr; }
};
extern "C" void scn_json_rpc_client_send() {
	AnyCallable callable;
	Transport transport;
	JsonRpcClientProtocol<Transport, std::pmr::string> client(callable, transport);
	ghost_written = NOTHING;
	RequestToken sent = client.send(UserId{0}, &callable, [] (IStructuredOutput& params, RequestToken) {
		params.startWritingObject({}, 0);
	});
	sa_check(sent.id == token, "C14 the response to the right request is awaited");
}
extern "C" void scn_json_rpc_client_response() {
	AnyCallable callable;
	Transport transport;
	JsonRpcClientProtocol<Transport, std::pmr::string> client(callable, transport);
	token = sa_int(1, 1000000);
	fits = sa_bool();
	ghost_written = ghost_member = ghost_id = ghost_error = ghost_result = ghost_version = ghost_read = 0;
	bool received = false;
	try {
		received = client.getResponse(RequestToken{unsigned(token)}, [] (IStructuredInput& input) {
			sa_check(ghost_member == IS_RESULT, "C14 the value returned is the result");
			sa_check(!ghost_error, "C14 no result is taken from a response with an error");
			ghost_result = 1;
			input.readInt({});
		});
	} catch (...) {
		sa_reach("failed");
		return;
	}
	if (received) {
		sa_reach("received");
		sa_check(transport.responded, "C14 a response that did not come is not reported as received");
		sa_check(transport.okay, "C14 a failed response is not reported as received");
		sa_check(ghost_result, "C14 a response without result is not reported as received");
		sa_check(ghost_error == 0, "C14 a response with an error is not reported as received");
		sa_check(ghost_id != 2, "C14 a response to another request is not reported as received");
		sa_check(ghost_version != 2, "C14 a response of another protocol version is not reported as received");
	}
}
