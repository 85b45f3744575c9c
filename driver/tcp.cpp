// The buffer of one TCP connection between a network that delivers any amounts and a responder that consumes any amounts
#include "sa.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
static long pending;    // received and not consumed
int ghost_reaction;     // what the responder returned last
struct AnySession : ITcpServerSession {
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
		sa_reach("fed");
		sa_check(std::ssize(data) == pending, "C18 the responder is given exactly what was received and not consumed yet");
		if (!data.empty()) { // the responder may look at all of it and write to it
			long at = sa_int(0, std::ssize(data) - 1);
			char c = data[at];
			data[at] = c;
		}
		ghost_reaction = sa_enum(0, 3);
		switch (ghost_reaction) {
			case 0: {
				sa_assume(!data.empty());
				int consumed = sa_int(1, std::ssize(data));
				pending -= consumed;
				sa_reach("consumed");
				return {ServerReaction::OK, consumed};
			}
			case 1: return {ServerReaction::READ_ON, int(sa_int(0, 10))};
			case 2: return {ServerReaction::WRONG_REPLY, int(sa_int(0, 10))};
			default: return {ServerReaction::DISCONNECT, int(sa_int(0, 10))};
		}
	}
	void notifyMessageWasParsed() override {}
};
extern "C" void scn_tcp_buffer() {
	TcpServerBuffer buffer;
	AnySession session;
	sa_shape(&buffer, sizeof(buffer));
	pending = 0;
	ghost_reaction = -1;
	while (sa_bool()) {
		std::span<char> space = buffer.space();
		sa_check(!space.empty(), "C18 there is always space to receive more");
		long length = sa_int(0, std::ssize(space));
		if (length > 0) { // anything is received into it
			space[0] = char(sa_int(-128, 127));
			space[length - 1] = char(sa_int(-128, 127));
		}
		pending += length;
		sa_assume(pending <= SA::MaxSize - 4096); // a limit of the analysis
		std::error_code error;
		if (sa_bool()) error = std::make_error_code(std::errc::connection_reset);
		ghost_reaction = -1;
		bool more = buffer.receive(session, error, length);
		if (!more) break;
		ghost_reaction = -1;
		sa_reach("received");
	}
}
