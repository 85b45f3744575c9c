// What the HTTP client sends is what the HTTP server receives, and each response gets to the request it answers
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "blob.hpp"
using namespace Bomba;
extern "C" {
int ghost_kind;   // of the request
int ghost_which;  // size of the body
int ghost_pieces; // how the body is written
int ghost_cut;    // how much comes first
int ghost_calls;  // of the user
int ghost_order;  // of asking for the responses
int ghost_early;  // which response is asked about early
int ghost_got;    // which responses were received
}
using Growing = ExpandingBuffer<64, Blob>;
#define PROPERTY "C15"
#include "network.hpp"
static constexpr char pattern[] = "\r\n\r\nContent-Length: 3\r\n\r\n0123456789";
static int bodySize;
static char bodyAt(int i) { return pattern[i % (sizeof(pattern) - 1)]; }
static constexpr const char* arrives = "C15 a request arrives at the server as the client wrote it";
struct ReceivedGet : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		if (ghost_kind == 0 && ghost_calls == 0) sa_check(path == "/q?x=1", arrives);
		else sa_check(ghost_calls == 1 && path == "/", arrives);
		ghost_calls++;
		return true;
	}
};
struct ReceivedPost : IHttpPostResponder {
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& writer) override {
		sa_check(ghost_calls == 0 && ghost_kind != 0 && path == (ghost_kind == 1 ? "/a/b" : "/"), arrives);
		sa_check(type == "text/x", arrives);
		sa_check(int(body.size()) == bodySize, arrives);
		for (int i = 0; i < bodySize; i++) sa_check(body[i] == bodyAt(i), arrives);
		ghost_calls++;
		return true;
	}
};
extern "C" void scn_http_round_request() {
	ghost_kind = sa_enum(0, 2);
	ghost_pieces = 0;
	ghost_which = 0;
	ghost_calls = 0;
	Network network;
	HttpClient<Text, Growing> client(network, "host.x");
	if (ghost_kind == 0) client.get("/q?x=1");
	else {
		ghost_which = sa_enum(0, 6);
		ghost_pieces = sa_enum(0, 2);
		int sizes[] = {0, 1, 9, 10, 33, 99, 100};
		bodySize = sizes[ghost_which];
		auto body = [] (Growing& buffer, RequestToken) {
			static char whole[100];
			for (int i = 0; i < bodySize; i++) whole[i] = bodyAt(i);
			if (ghost_pieces == 0) buffer += std::string_view(whole, bodySize);
			else if (ghost_pieces == 1) for (int i = 0; i < bodySize; i++) buffer += whole[i];
			else {
				buffer += std::string_view(whole, bodySize / 3);
				buffer += std::span<const char>(whole + bodySize / 3, bodySize - bodySize / 3);
			}
		};
		if (ghost_kind == 1) client.post("text/x", body, "/a/b");
		else client.post("text/x", body);
	}
	client.get();
	ReceivedGet get;
	ReceivedPost post;
	HttpServer<Growing> server(get, post);
	auto session = server.getSession();
	ITcpResponder& responder = reinterpret_cast<ITcpResponder&>(session);
	auto send = [] (std::span<const char>) { };
	auto [first, consumed] = responder.respond(std::span<char>(network.requests.data, network.requests.size), send);
	sa_check(first == ServerReaction::OK && ghost_calls == 1 && consumed < network.requests.size, arrives);
	auto [second, rest] = responder.respond(std::span<char>(network.requests.data + consumed, network.requests.size - consumed), send);
	sa_check(second == ServerReaction::OK && ghost_calls == 2 && consumed + rest == network.requests.size, arrives);
	sa_reach("received");
}
static const char* answered = "C15 a response is given once to the request it answers";
extern "C" void scn_http_round_response() {
	ghost_got = 0;
	Network network;
	HttpClient<Text, Growing> client(network, "host.x");
	RequestToken tokens[] = { client.get("/a"), client.get("/b"), client.get("/c") };
	network.responses += "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nX: 1\r\n\r\nabc";
	network.responses += "HTTP/1.1 500 No\r\nContent-Length:2\r\n\r\nde";
	network.responses += "HTTP/1.1 204 No\r\n\r\n";
	ghost_order = sa_enum(0, 5);
	ghost_cut = sa_enum(0, network.responses.size);
	network.arrived = ghost_cut;
	static constexpr int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (int i = 0; i < 3; i++) {
		int asked = orders[ghost_order][i];
		client.getResponse(tokens[asked], [&] (std::span<char> message, bool success) {
			sa_check(!(ghost_got & 1 << asked), answered);
			ghost_got |= 1 << asked;
			sa_check(success == (asked != 1), "C15 the status of a response says whether it succeeded");
			sa_check(std::string_view(message.data(), message.size()) == (asked == 0 ? "abc" : asked == 1 ? "de" : ""), answered);
			return true;
		});
		sa_check(ghost_got & 1 << asked, answered);
	}
	sa_check(ghost_got == 7, answered);
	sa_reach("received");
}
extern "C" void scn_http_round_polled() {
	ghost_got = 0;
	Network network;
	HttpClient<Text, Growing> client(network, "host.x");
	IRpcResponder& responder = client;
	RequestToken tokens[] = { client.get("/a"), client.get("/b") };
	network.responses += "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc";
	int firstSize = network.responses.size;
	network.responses += "HTTP/1.1 200 OK\r\nContent-Length:2\r\n\r\nde";
	ghost_order = sa_enum(0, 1);
	ghost_early = sa_enum(0, 1);
	ghost_cut = sa_enum(0, network.responses.size);
	network.arrived = ghost_cut;
	bool there = ghost_cut >= (ghost_early ? network.responses.size : firstSize);
	sa_check(responder.hasResponse(tokens[ghost_early]) == there, "C15 a response is announced when it arrived as a whole");
	sa_check(responder.hasResponse(tokens[ghost_early]) == there, "C15 a response is announced when it arrived as a whole");
	for (int i = 0; i < 2; i++) {
		int asked = i ^ ghost_order;
		client.getResponse(tokens[asked], [&] (std::span<char> message, bool success) {
			sa_check(!(ghost_got & 1 << asked), answered);
			ghost_got |= 1 << asked;
			sa_check(success && std::string_view(message.data(), message.size()) == (asked == 0 ? "abc" : "de"), answered);
			return true;
		});
		sa_check(ghost_got & 1 << asked, answered);
	}
	sa_reach("received");
}
