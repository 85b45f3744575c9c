#include "sa.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
// whatever code the user can supply to answer a request
static bool anyAnswer(IWriteStarter& writer) {
	long n = sa_enum(0, 5);
	if (n == 0) return false;
	if (n == 1) return true;
	if (n == 2) sa_throw_any();
	if (n == 3) {
		writer.writeUnknownSize(SA::Arbitrary(), [] (GeneralisedBuffer& b) {
			while (sa_bool()) { b += std::span<const char>(SA::Arbitrary()); if (sa_bool()) b += char(sa_int(-128, 127)); }
			if (sa_bool()) sa_throw_any();
		});
	}
	if (n == 4) {
		long size = sa_int(0, SA::MaxSize);
		writer.writeKnownSize(SA::Arbitrary(), size, [=] (GeneralisedBuffer& b) {
			if (sa_bool()) sa_throw_any();
			b += std::span<const char>(SA::Arbitrary(size, size));
			if (sa_bool()) sa_throw_any();
		});
	}
	if (sa_bool()) sa_throw_any();
	return sa_bool();
}
static void touch(std::string_view s) { // the user's code may look at all it is given
	if (!s.empty()) { volatile char c = s[sa_int(0, s.size() - 1)]; (void)c; }
}
struct AnyGet : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		touch(path);
		return anyAnswer(writer);
	}
};
struct AnyPost : IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& writer) override {
		touch(path);
		touch(type);
		touch({body.data(), body.size()});
		return anyAnswer(writer);
	}
};
// Any history of requests on one connection, cut into pieces in any way
extern "C" void scn_http_server_memory() {
	AnyGet get;
	AnyPost post;
	HttpServer<> server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	long size = sa_int(0, SA::MaxSize);
	char* data = sa_buf(size);
	long available = sa_int(0, size);
	while (true) {
		auto [reaction, consumed] = responder.respond(std::span<char>(data, available), [] (std::span<const char> sent) { touch({sent.data(), sent.size()}); });
		sa_reach("responded");
		if (reaction == ServerReaction::DISCONNECT) return;
		if (reaction == ServerReaction::READ_ON) {
			available = sa_int(available, size);
		} else {
			size = sa_int(0, SA::MaxSize);
			data = sa_buf(size);
			available = sa_int(0, size);
		}
	}
}

// Observing what is sent: the states with different observations are kept apart
extern "C" {
int ghost_post;   // the request had a body
int ghost_inside; // the user's responder is running
int ghost_called; // how many times it was called (at most 2)
int ghost_user;   // something was sent while it ran
int ghost_next;   // the next message comes
int ghost_own;    // responses that the server sent on its own (at most 2)
}
static const char* bodyEnd;
static void observe(std::span<const char> sent) {
	if (ghost_inside) {
		ghost_user = 1;
		return;
	}
	if (!ghost_own) {
		ghost_own = 1;
		return;
	}
	if (sent.size() >= 5) { // A continuation unless it surely is a start of another response
		bool starts = (sent[0] == 'H') & (sent[1] == 'T') & (sent[2] == 'T') & (sent[3] == 'P') & (sent[4] == '/');
		if (sa_definite(starts)) ghost_own = 2;
	}
}
struct ObservedGet : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		if (ghost_called < 2) ghost_called++;
		ghost_inside = 1;
		try {
			bool result = anyAnswer(writer);
			ghost_inside = 0;
			return result;
		} catch (...) {
			ghost_inside = 0;
			throw;
		}
	}
};
struct ObservedPost : IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& writer) override {
		if (ghost_called < 2) ghost_called++;
		bodyEnd = body.data() + body.size();
		ghost_post = 1;
		ghost_inside = 1;
		try {
			bool result = anyAnswer(writer);
			ghost_inside = 0;
			return result;
		} catch (...) {
			ghost_inside = 0;
			throw;
		}
	}
};
extern "C" void scn_http_server_responses() {
	ObservedGet get;
	ObservedPost post;
	HttpServer<> server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	sa_modes(&session, sizeof(session));
	long size = 0, available = 0;
	char* data = nullptr;
	ghost_next = 1;
	while (true) { // each time more of a message or the next one comes
		if (ghost_next) {
			size = sa_int(0, SA::MaxSize);
			data = sa_buf(size);
			available = sa_int(0, size);
		} else
			available = sa_int(available, size);
		auto [reaction, consumed] = responder.respond(std::span<char>(data, available), [] (std::span<const char> sent) { observe(sent); });
		sa_check(ghost_called <= 1, "C05 the responder is called once per request");
		if (reaction == ServerReaction::DISCONNECT) {
			sa_reach("disconnected");
			sa_check(ghost_own + ghost_user <= 1, "C05 at most one response is sent before disconnecting");
			return;
		}
		if (reaction == ServerReaction::READ_ON) {
			sa_reach("incomplete");
			sa_check(ghost_own + ghost_user == 0, "C05 nothing is sent before the request is complete");
			sa_check(ghost_called == 0, "C05 the responder is not called before the request is complete");
			ghost_next = 0;
		} else {
			sa_reach("answered");
			sa_check(ghost_own + ghost_user == 1, "C05 exactly one response is sent to a request");
			sa_check(consumed >= 1, "C06 something is consumed by a processed request");
			sa_check(consumed <= available, "C06 only received bytes are consumed");
			if (ghost_post) {
				sa_reach("body");
				sa_check(bodyEnd == data + consumed, "C06 what is consumed ends where the body ends");
			}
			ghost_next = 1;
		}
		ghost_post = ghost_inside = ghost_called = ghost_user = ghost_own = 0;
	}
}
