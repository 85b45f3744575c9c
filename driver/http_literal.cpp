// Particular requests with known content, cut at every place, after an unknown history of the connection
#include "sa.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
extern "C" {
int ghost_phase; // 0: any request, 1: the request looked at is incomplete, 2: it was given to the user, 3: something was sent
int ghost_cut;
}
static std::string_view wantPath, wantType, wantBody;
static const char* wantBodyAt;
static bool same(std::string_view a, std::string_view b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false;
	return true;
}
static bool someAnswer(IWriteStarter& writer) {
	if (ghost_phase) {
		sa_check(ghost_phase == 1, "C07 the responder is called once for the request");
		ghost_phase = 2;
		return true;
	}
	if (sa_bool()) sa_throw_any();
	return sa_bool();
}
struct LiteralGet : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		if (ghost_phase) {
			sa_check(wantBodyAt == nullptr, "C07 a GET request is given to the GET responder");
			sa_check(same(path, wantPath), "C07 the path is the one requested");
		}
		return someAnswer(writer);
	}
};
struct LiteralPost : IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& writer) override {
		if (ghost_phase) {
			sa_check(wantBodyAt != nullptr, "C07 a POST request is given to the POST responder");
			sa_check(same(path, wantPath), "C07 the path is the one requested");
			sa_check(same(type, wantType), "C07 the content type is the one in the header");
			sa_check(body.data() == wantBodyAt, "C07 the body starts after the header");
			sa_check(body.size() == wantBody.size(), "C07 the body has the declared length");
		}
		return someAnswer(writer);
	}
};
static void anything(ITcpResponder& responder) { // one request, ends the analysis if the connection ends
	long size = sa_int(0, SA::MaxSize);
	char* data = sa_buf(size);
	long available = sa_int(0, size);
	while (true) {
		auto [reaction, consumed] = responder.respond(std::span<char>(data, available), [] (std::span<const char> sent) { });
		if (reaction == ServerReaction::DISCONNECT) sa_assume(false);
		if (reaction != ServerReaction::READ_ON) return;
		available = sa_int(available, size);
	}
}
static void literal(ITcpResponder& responder, const char* text, int length, int headerLength, bool keep) {
	char* data = sa_buf(512);
	for (int i = 0; i < length; i++) data[i] = text[i];
	if (wantBody.data()) wantBodyAt = data + headerLength;
	ghost_phase = 1;
	ghost_cut = sa_enum(0, length - 1);
	sa_reach("started");
	auto send = [] (std::span<const char> sent) {
		sa_check(ghost_phase == 2, "C07 the answer comes after the user decided it");
		ghost_phase = 3;
	};
	{
		auto [reaction, consumed] = responder.respond(std::span<char>(data, ghost_cut), send);
		sa_check(reaction == ServerReaction::READ_ON, "C06 an incomplete request is waited for");
		sa_check(ghost_phase == 1, "C06 an incomplete request is not processed");
	}
	auto [reaction, consumed] = responder.respond(std::span<char>(data, length + 20), send);
	sa_reach("finished");
	sa_check(reaction == (keep ? ServerReaction::OK : ServerReaction::DISCONNECT), "C07 the connection is kept as the request asks");
	sa_check(!keep || consumed == length, "C06 the request ends where its body ends");
	sa_check(ghost_phase == 3, "C07 the request is answered");
}
#define REQUEST(NAME, PATH, TYPE, BODY, KEEP, HEADER) extern "C" void NAME() { \
	LiteralGet get; \
	LiteralPost post; \
	HttpServer<> server(get, post); \
	auto session = server.getSession(); \
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session); \
	if (sa_bool()) anything(responder); \
	wantPath = PATH; \
	wantType = TYPE; \
	wantBody = BODY; \
	literal(responder, HEADER BODY, sizeof(HEADER BODY) - 1, sizeof(HEADER) - 1, KEEP); \
}
#define NONE
REQUEST(scn_http_post_request, "/a/b", "text/x", "12\r\n\r\n7", true, "POST /a/b HTTP/1.1\r\nHost: h\r\nContent-Length: 7\r\nContent-Type: text/x\r\n\r\n")
REQUEST(scn_http_close_request, "/", "t", "x", false, "POST / HTTP/1.1\r\ncontent-type: t\r\nConnection: close\r\nCONTENT-LENGTH: 1\r\n\r\n")
REQUEST(scn_http_untyped_request, "/q", "", "", true, "POST /q HTTP/1.1\r\nContent-Length:0\r\n\r\n")
extern "C" void scn_http_get_request() {
	LiteralGet get;
	LiteralPost post;
	HttpServer<> server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	if (sa_bool()) anything(responder);
	wantPath = "/some?x=1";
	static const char header[] = "GET /some?x=1 HTTP/1.1\r\nHost: a.b\r\nAccept: */*\r\n\r\n";
	literal(responder, header, sizeof(header) - 1, sizeof(header) - 1, true);
}
