// stubs: client
// SyncNetworkClient with responses in a stream cut anywhere
#include "sa.hpp"
#include "bomba_core.hpp"
#include "bomba_sync_client.hpp"
using namespace Bomba;
extern "C" {
int ghost_asked;
int ghost_delivered; // which responses were processed, as bits
int ghost_case;
int ghost_consumed; // bytes of responses that were recognised
int ghost_next;     // the next response in the stream
}
// Messages have their identifier, size and content
static int message(int at, int id, int size) {
	sa_stream[at] = char(id);
	sa_stream[at + 1] = char(size);
	for (int i = 2; i < size; i++) sa_stream[at + i] = char('a' + id * 10 + i);
	return at + size;
}
using Got = std::tuple<ServerReaction, RequestToken, int64_t>;
struct Caller {
	uint32_t id;
	int size;
	bool fails = false;   // whether processing the response fails
	int times = 0;
	bool identifiedOnly = false;
	Got operator()(std::span<char> data, bool identified) {
		if (data.size() < 2 || int(data.size()) < data[1]) {
			sa_check(!identified, "C26 a response that was set aside is whole");
			return Got{ServerReaction::READ_ON, RequestToken{}, 0};
		}
		RequestToken token{uint32_t(data[0])};
		sa_check(data[0] >= 1 && data[0] <= 3, "C26 a response is read from where it starts");
		int total = data[1];
		if (!identified && token.id != id) return Got{ServerReaction::WRONG_REPLY, token, int64_t(total)};
		sa_check(token.id == id, "C26 a response goes to the call it belongs to");
		sa_check(!identified || int(data.size()) == total, "C26 a response that was set aside has nothing more");
		sa_check(total == size, "C26 a response is given whole");
		for (int i = 2; i < total; i++)
			sa_check(data[i] == char('a' + id * 10 + i), "C26 a response arrives with its own bytes");
		if (fails) throw std::runtime_error("a response that can't be used");
		times++;
		return Got{ServerReaction::OK, token, int64_t(total)};
	}
};
static void get(SyncNetworkClient& client, int id, int size) {
	Caller caller{uint32_t(id), size};
	client.getResponse(RequestToken{uint32_t(id)}, caller);
	sa_check(caller.times == 1, "C26 a response is processed exactly once");
}
static const int sizes[4] = {0, 3, 2, 4};
static void prepare(int first, int second, int third) {
	int size = message(0, first, sizes[first]);
	if (second) size = message(size, second, sizes[second]);
	if (third) size = message(size, third, sizes[third]);
	sa_streamSize = size;
}
static const int orders[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
static void inOrder(int asked) { // three responses sent in any order, asked for in any order, cut at any place
	ghost_case = int(sa_enum(0, 5));
	prepare(orders[ghost_case][0], orders[ghost_case][1], orders[ghost_case][2]);
	sa_cuts = 1;
	SyncNetworkClient client("server", "http");
	for (int i = 0; i < 3; i++) {
		ghost_asked = i;
		get(client, orders[asked][i], sizes[orders[asked][i]]);
	}
	sa_reach("C26 three responses in any order, cut at any place");
}
extern "C" void scn_client_order_0() { inOrder(0); }
extern "C" void scn_client_order_1() { inOrder(1); }
extern "C" void scn_client_order_2() { inOrder(2); }
extern "C" void scn_client_order_3() { inOrder(3); }
extern "C" void scn_client_order_4() { inOrder(4); }
extern "C" void scn_client_order_5() { inOrder(5); }
extern "C" void scn_client_cuts() { // two responses cut at any two places
	ghost_case = int(sa_enum(0, 1));
	prepare(ghost_case + 1, 2 - ghost_case, 0);
	sa_cuts = 2;
	SyncNetworkClient client("server", "http");
	get(client, 1, sizes[1]);
	get(client, 2, sizes[2]);
	sa_reach("C26 two responses cut anywhere");
}
extern "C" void scn_client_poll() { // asked whether they came
	ghost_case = int(sa_enum(0, 1));
	prepare(ghost_case + 1, 2 - ghost_case, 0);
	sa_cuts = 2;
	SyncNetworkClient client("server", "http");
	client.connect();
	int ends[3];
	ends[ghost_case + 1] = sizes[ghost_case + 1];
	ends[2 - ghost_case] = sa_streamSize;
	int id = 1;
	for (int i = 0; i < 4; i++) {
		ghost_asked = i;
		client._socket.arrive();
		id = i & 1 ? 2 : 1;
		Caller caller{uint32_t(id), sizes[id]};
		client.tryToGetResponse(RequestToken{uint32_t(id)}, caller);
		sa_check((caller.times > 0) == (ghost_arrived >= ends[id]), "C26 a response is announced once it came and not earlier");
		sa_check(ghost_waiting == ghost_arrived || caller.times > 0, "C26 asking whether a response came looks at everything that came");
		sa_check(caller.times <= 1, "C26 a response is announced once");
	}
	get(client, 2, sizes[2]);
	get(client, 1, sizes[1]);
	sa_reach("C26 responses are still there after asking whether they came");
}
extern "C" void scn_client_failing() { // a response whose processing fails
	ghost_case = int(sa_enum(0, 1));
	prepare(ghost_case + 1, 2 - ghost_case, 3);
	sa_cuts = 2;
	SyncNetworkClient client("server", "http");
	Caller failing{1, sizes[1], true};
	bool failed = false;
	try {
		client.getResponse(RequestToken{1}, failing);
	} catch (std::exception&) {
		failed = true;
	}
	sa_check(failed, "C26 what a response causes gets to the caller");
	get(client, 2, sizes[2]);
	get(client, 3, sizes[3]);
	sa_reach("C26 responses after one that can't be used");
}
extern "C" void scn_client_ended() { // the connection ends before a response comes
	prepare(2, 1, 0);
	sa_streamSize = int(sa_enum(sizes[2], sizes[2] + sizes[1] - 1));
	ghost_case = sa_streamSize;
	sa_after = 1;
	ghost_asked = int(sa_enum(1, 2));
	sa_after = ghost_asked;
	sa_cuts = 1;
	SyncNetworkClient client("server", "http");
	Caller lost{1, sizes[1]};
	bool failed = false;
	try {
		client.getResponse(RequestToken{1}, lost);
	} catch (RemoteError&) {
		failed = true;
	}
	sa_check(failed && lost.times == 0, "C26 a response that can't come any more is reported as an error");
	get(client, 2, sizes[2]);
	Caller again{2, sizes[2]};
	failed = false;
	try {
		client.getResponse(RequestToken{2}, again);
	} catch (RemoteError&) {
		failed = true;
	}
	sa_check(failed && again.times == 0, "C26 a response is given only once");
	sa_reach("C26 a connection that ended");
}
// Messages known only by their sizes
static const int bigSizes[3] = {6200, 2048, 1};
struct BigCaller {
	int id;
	int times = 0;
	Got operator()(std::span<char> data, bool identified) {
		if (identified) {
			sa_check(int(data.size()) == bigSizes[id], "C26 a large response that was set aside is whole and has nothing more");
			times++;
			return Got{ServerReaction::OK, RequestToken{uint32_t(id)}, int64_t(data.size())};
		}
		sa_check(int(data.size()) == ghost_arrived - ghost_consumed, "C26 all data that was received is there when a response is sought");
		int next = ghost_next;
		if (next > 2 || int(data.size()) < bigSizes[next]) return Got{ServerReaction::READ_ON, RequestToken{}, 0};
		ghost_consumed = ghost_consumed + bigSizes[next];
		ghost_next = next + 1;
		if (next == id) times++;
		return Got{next == id ? ServerReaction::OK : ServerReaction::WRONG_REPLY, RequestToken{uint32_t(next)}, int64_t(bigSizes[next])};
	}
};
extern "C" void scn_client_large() { // responses that don't fit where data is received
	sa_big = true;
	sa_streamSize = bigSizes[0] + bigSizes[1] + bigSizes[2];
	SyncNetworkClient client("server", "http");
	client.connect();
	ghost_case = int(sa_enum(0, 2)); // what is asked for first
	ghost_asked = int(sa_enum(0, 1)); // whether it's asked for without waiting
	if (ghost_asked) {
		client._socket.arrive();
		BigCaller asking{ghost_case};
		client.tryToGetResponse(RequestToken{uint32_t(ghost_case)}, asking);
		sa_check(asking.times == 1, "C26 a large response is announced once it came");
	}
	for (int i = 0; i < 3; i++) {
		int id = ghost_case + i > 2 ? ghost_case + i - 3 : ghost_case + i;
		BigCaller caller{id};
		client.getResponse(RequestToken{uint32_t(id)}, caller);
		sa_check(caller.times == 1, "C26 a large response is processed exactly once");
	}
	sa_reach("C26 large responses");
}
extern "C" void scn_client_write() { // requests accepted in pieces
	SyncNetworkClient client("server", "http");
	char request[5] = {'r', 'e', 'q', 'u', '1'};
	client.writeRequest(std::span<char>(request, 4));
	client.writeRequest(std::span<char>(request + 4, 1));
	client.writeRequest(std::span<char>(request, size_t(0)));
	sa_check(ghost_sent == 5, "C26 a request is sent whole");
	for (int i = 0; i < 5; i++) sa_check(sa_written[i] == request[i], "C26 a request is sent unchanged");
	sa_reach("C26 requests sent in pieces");
}
