// stubs: net
// The TCP server between a network that does anything and a responder that does anything
#include "sa.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
namespace N = std::experimental::net;
struct AnyResponder {
	struct Session {
		std::pair<ServerReaction, int64_t> respond(std::span<char> input, Callback<void(std::span<const char>)> writer) {
			sa_reach("served");
			if (sa_bool()) {
				SA::Arbitrary output(0, 1000);
				writer(output);
			}
			switch (sa_enum(0, 2)) { // how a part of the input is kept is decided by another scenario
				case 0: return {ServerReaction::OK, std::ssize(input)};
				case 1: ghost_end = 1; return {ServerReaction::DISCONNECT, 0};
				default: ghost_end = 1; sa_throw_any();
			}
		}
	};
	Session getSession() { return {}; }
};
static bool waits(int number) { return N::sa_receiving[number].handler.there; }
static void look() {
	N::sa_look();
	sa_unlocked();
}
static void ended(int number) {
	if (!waits(number)) sa_check(!N::sa_alive[number], "C04 a connection that ended is forgotten");
}
static void accept(int number) {
	auto& op = N::ip::tcp::sa_accepting;
	sa_check(op.handler.there, "C04 the server waits for another connection");
	if (!op.handler.there) return;
	std::error_code error = N::sa_anyError();
	try {
		op.finish(op.handler, error, N::ip::tcp::socket(number));
	} catch (...) {
		sa_check(false, "C04 accepting a connection throws no exception out of the server");
	}
	look();
}
static void receive(int number) {
	ghost_end = 0;
	N::sa_finish(N::sa_receiving[number]);
	if (ghost_end) sa_check(!waits(number), "C04 a connection ends when the client, the network or the responder ends it");
	else sa_check(waits(number), "C04 a connection that was not ended waits for more data");
	ghost_end = 0;
	look();
}
using Server = TcpServer<AnyResponder>;
struct World {
	AnyResponder responder;
	Server* server = reinterpret_cast<Server*>(sa_buf(sizeof(Server)));
	World() {
		N::sa_othersRun = false;
		for (auto& r : N::sa_receiving) r.handler.there = false;
		for (auto& a : N::sa_alive) a = false;
		new (server) Server(responder, 8080);
		sa_shared(server, sizeof(Server));
	}
};
// One connection; the threads of the server can overtake each other
extern "C" void scn_server_one() {
	World world;
	accept(0);
	sa_reach("accepted");
	N::sa_othersRun = true;
	while (waits(0) && sa_bool()) {
		receive(0);
		if (sa_bool()) world.server->averageResponseTime();
	}
	if (!waits(0)) sa_reach("closed");
	ended(0);
}
// Three connections served and ending in any order
extern "C" void scn_server_many() {
	World world;
	accept(0);
	accept(1);
	accept(2);
	if (!waits(0) || !waits(1) || !waits(2)) return;
	sa_reach("accepted");
	for (int i = 0; i < 3; i++) {
		if (sa_bool()) {
			if (waits(0)) receive(0);
		} else if (sa_bool()) {
			if (waits(1)) receive(1);
		} else {
			if (waits(2)) receive(2);
		}
		ended(0);
		ended(1);
		ended(2);
	}
	sa_reach("done");
}
