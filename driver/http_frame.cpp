// What the HTTP server sends, for every way of answering, read as a client reads it
#include "text.hpp"
#include "blob.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
extern "C" {
int ghost_mode;   // how the user answers, see enum Mode
int ghost_size;   // of the body
int ghost_which;
int ghost_pieces; // how the body is written
int ghost_post;   // 0 GET, 1 POST, 2 another method
}
enum Mode { KNOWN_SIZE, UNKNOWN_SIZE, NOTHING_WRITTEN, REFUSED, THROWN, THROWN_IN_BODY, MODES };
using Growing = ExpandingBuffer<64, Blob>;
using Wire = SizedText<250>;
static constexpr char pattern[] = "\r\n\r\nContent-Length: 3\r\n\r\n0123456789";
static char bodyAt(int i) { return pattern[i % (sizeof(pattern) - 1)]; }
static const char* type = "text/x";
static bool answer(IWriteStarter& writer) {
	auto body = [] (GeneralisedBuffer& buffer) {
		static char whole[200];
		for (int i = 0; i < ghost_size; i++) whole[i] = bodyAt(i);
		if (ghost_mode == THROWN_IN_BODY) {
			buffer += "abc";
			sa_throw_any();
		}
		if (ghost_pieces == 0) buffer += std::string_view(whole, ghost_size);
		else if (ghost_pieces == 1) for (int i = 0; i < ghost_size; i++) buffer += whole[i];
		else {
			buffer += std::string_view(whole, ghost_size / 3);
			buffer += std::span<const char>(whole + ghost_size / 3, ghost_size - ghost_size / 3);
		}
	};
	switch (ghost_mode) {
		case KNOWN_SIZE: writer.writeKnownSize(type, ghost_size, body); return true;
		case UNKNOWN_SIZE: case THROWN_IN_BODY: writer.writeUnknownSize(type, body); return true;
		case NOTHING_WRITTEN: return true;
		case REFUSED: return false;
		default: sa_throw_any();
	}
}
struct AnyGet : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override { return answer(writer); }
};
struct AnyPost : IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& writer) override { return answer(writer); }
};
static bool sameName(std::string_view a, std::string_view lower) {
	if (a.size() != lower.size()) return false;
	for (size_t i = 0; i < a.size(); i++) if ((a[i] >= 'A' && a[i] <= 'Z' ? a[i] - 'A' + 'a' : a[i]) != lower[i]) return false;
	return true;
}
static std::string_view trim(std::string_view it) {
	while (!it.empty() && (it.front() == ' ' || it.front() == '\t')) it.remove_prefix(1);
	while (!it.empty() && (it.back() == ' ' || it.back() == '\t')) it.remove_suffix(1);
	return it;
}
static const char* wellFormed = "C09 a response is well formed";
static void response(std::string_view wire) {
	int status = 200;
	if (ghost_post == 2) status = 501;
	else if (ghost_mode == NOTHING_WRITTEN) status = 204;
	else if (ghost_mode == REFUSED) status = ghost_post ? 400 : 404;
	else if (ghost_mode == THROWN || ghost_mode == THROWN_IN_BODY) status = 500;
	sa_check(wire.substr(0, 9) == "HTTP/1.1 " && wire.size() > 13 && wire[12] == ' ', wellFormed);
	sa_check((wire[9] - '0') * 100 + (wire[10] - '0') * 10 + wire[11] - '0' == status, "C09 the status says how the request ended");
	size_t at = wire.find("\r\n");
	sa_check(at < 60, wellFormed);
	at += 2;
	int lengths = 0, types = 0;
	long length = 0;
	while (true) {
		size_t end = wire.find("\r\n", at);
		if (end == std::string_view::npos) {
			sa_check(false, wellFormed);
			sa_assume(false);
		}
		if (end == at) break;
		std::string_view line = wire.substr(at, end - at);
		size_t colon = line.find(':');
		if (colon == std::string_view::npos) {
			sa_check(false, wellFormed);
			sa_assume(false);
		}
		std::string_view name = line.substr(0, colon);
		std::string_view value = trim(line.substr(colon + 1));
		if (sameName(name, "content-length")) {
			lengths++;
			sa_check(!value.empty(), wellFormed);
			length = 0;
			for (char c : value) {
				sa_check(c >= '0' && c <= '9', wellFormed);
				length = length * 10 + c - '0';
			}
		} else if (sameName(name, "content-type")) {
			types++;
			sa_check(status != 200 || value == type, "C09 the response has the content type the user gave");
		} else sa_check(!sameName(name, "transfer-encoding"), wellFormed);
		at = end + 2;
	}
	at += 2;
	sa_check(status == 204 || lengths == 1, "C09 a response says its length once");
	sa_check(length == long(wire.size() - at), "C09 a response is as long as it says");
	sa_check(types == 1 || status != 200, "C09 the response has the content type the user gave");
	if (status == 200) {
		sa_check(long(wire.size() - at) == ghost_size, "C09 the response has the body the user wrote");
		for (int i = 0; i < ghost_size; i++) sa_check(wire[at + i] == bodyAt(i), "C09 the response has the body the user wrote");
	}
	sa_reach("received");
}
template <typename Server>
static void serve() {
	AnyGet get;
	AnyPost post;
	Server server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	char* data = sa_buf(100);
	std::string_view request = ghost_post == 0 ? "GET /x HTTP/1.1\r\n\r\n" : ghost_post == 1 ? "POST /x HTTP/1.1\r\nContent-Length: 1\r\n\r\n1" : "PUT /x HTTP/1.1\r\nContent-Length: 1\r\n\r\n1";
	for (size_t i = 0; i < request.size(); i++) data[i] = request[i];
	Wire wire;
	auto [reaction, consumed] = responder.respond(std::span<char>(data, request.size()), [&] (std::span<const char> sent) { wire += std::string_view(sent.data(), sent.size()); });
	sa_check(reaction == ServerReaction::OK, "C09 the request is answered");
	response(wire);
}
extern "C" void scn_http_response_sizes() {
	ghost_mode = sa_enum(KNOWN_SIZE, UNKNOWN_SIZE);
	ghost_post = sa_enum(0, 1);
	ghost_pieces = sa_enum(0, 2);
	int sizes[] = {0, 1, 9, 10, 55, 99, 100, 121, 122, 123, 150};
	ghost_which = sa_enum(0, 10);
	ghost_size = sizes[ghost_which];
	serve<HttpServer<Growing>>();
}
extern "C" void scn_http_response_endings() {
	ghost_mode = sa_enum(NOTHING_WRITTEN, MODES - 1);
	ghost_post = sa_enum(0, 2);
	ghost_size = 0;
	ghost_pieces = 0;
	serve<HttpServer<>>();
}
struct HugeGet : IHttpGetResponder {
	int64_t size = 0;
	bool get(std::string_view path, IWriteStarter& writer) override {
		auto body = [] (GeneralisedBuffer& buffer) { buffer += "start"; };
		writer.writeKnownSize(type, size, body);
		return true;
	}
};
extern "C" void scn_http_response_huge() { // Only the beginning of the body is looked at
	ghost_post = 0;
	ghost_mode = KNOWN_SIZE;
	ghost_which = sa_enum(0, 17);
	ghost_pieces = sa_enum(0, 1);
	int64_t announced = 1;
	for (int i = 0; i < ghost_which; i++) announced *= 10;
	if (ghost_pieces) announced = announced * 10 - 1;
	HugeGet get;
	get.size = announced;
	AnyPost post;
	HttpServer<> server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	char* data = sa_buf(100);
	std::string_view request = "GET /x HTTP/1.1\r\n\r\n";
	for (size_t i = 0; i < request.size(); i++) data[i] = request[i];
	Wire wire;
	auto sending = [&] (std::span<const char> sent) { wire += std::string_view(sent.data(), sent.size()); };
	responder.respond(std::span<char>(data, request.size()), sending);
	std::string_view sent = wire;
	size_t at = sent.find("\r\nContent-Length:");
	sa_check(at != std::string_view::npos, wellFormed);
	if (at == std::string_view::npos) sa_assume(false);
	at += 17;
	size_t end = sent.find("\r\n", at);
	sa_check(end != std::string_view::npos, wellFormed);
	if (end == std::string_view::npos) sa_assume(false);
	std::string_view value = trim(sent.substr(at, end - at));
	static const char* right = "C09 a response is as long as it says, however long";
	sa_check(!value.empty() && value.size() < 19, right);
	int64_t length = 0;
	for (char c : value) {
		sa_check(c >= '0' && c <= '9', wellFormed);
		length = length * 10 + c - '0';
	}
	sa_check(length == announced, right);
	sa_reach("received");
}
