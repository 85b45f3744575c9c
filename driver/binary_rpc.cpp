// Remote calls through the binary protocol: the request of the client given to the server, its response given to the client
#include "text.hpp"
#include "bomba_core.hpp"
#include "bomba_binary_protocol.hpp"
#include "blob.hpp"
#define PROPERTY "C16"
#include "network.hpp"
extern "C" {
int ghost_leaf;   // which method is called first
int ghost_cut;    // how much comes first
int ghost_calls;  // of methods, by the server
int ghost_order;  // of asking for the responses
int ghost_early;  // which response is asked about early
int ghost_got;    // which responses were received
int ghost_sent;   // number of responses
int ghost_fails;  // whether the method fails (1) or ignores its arguments (2)
int ghost_thrown; // whether calling a method failed
}
namespace Flag = SerialisationFlags;
using Growing = ExpandingBuffer<64, Blob>;
struct Method;
static Method* expected[2]; // which methods should be called
static long argument[2];
static long result[2];
struct Method : IRemoteCallable {
	Method* children[3] = {};
	using IRemoteCallable::getChild;
	const IRemoteCallable* getChild(int index) const override { return index >= 0 && index < 3 ? children[index] : nullptr; }
	std::pair<std::string_view, int> childName(const IRemoteCallable* child) const override {
		for (int i = 0; i < 3; i++) if (children[i] == child) return {"", i};
		return {"", NO_SUCH_STRUCTURE};
	}
	bool call(IStructuredInput* arguments, IStructuredOutput& output, Callback<> introduceResult,
			Callback<void(std::string_view)> introduceError, std::optional<UserId>) const override {
		sa_check(ghost_calls < 2 && expected[ghost_calls] == this, "C16 the called method is the one that was meant");
		if (ghost_fails != 2) // May also ignore its arguments
			sa_check(arguments && arguments->readInt(Flag::INT_32) == argument[ghost_calls], "C16 a method gets the arguments it was called with");
		int which = ghost_calls;
		ghost_calls++;
		if (ghost_fails == 1) sa_throw_any();
		introduceResult();
		output.writeInt(Flag::INT_32, result[which]);
		return true;
	}
};
struct Tree { // the same on both sides
	Method root, group, deep, a, b, c, d, e, f;
	Tree() {
		add(root, 0, a);
		add(root, 1, group);
		add(root, 2, b);
		add(group, 0, c);
		add(group, 1, deep);
		add(group, 2, d);
		add(deep, 0, f);
		add(deep, 1, e);
	}
	void add(Method& to, int index, Method& child) {
		to.children[index] = &child;
		to.setSelfAsParent(&child);
	}
	Method& leaf(int which) { return which == 0 ? a : which == 1 ? b : which == 2 ? c : which == 3 ? d : e; }
};
using Client = BinaryProtocolClient<uint16_t, Growing>;
using Server = BinaryProtocolServer<uint16_t, Growing>;
static void request(Client& client, Tree& tree, int leaf, int order, RequestToken& token) {
	argument[order] = sa_int(-0x80000000l, 0x7fffffff);
	result[order] = sa_int(-0x80000000l, 0x7fffffff);
	token = client.send({}, &tree.leaf(leaf), [&] (IStructuredOutput& output, RequestToken) { output.writeInt(Flag::INT_32, argument[order]); });
}
static const char* answered = "C16 a response is given once to the call it answers";
static void received(IStructuredInput& input, int which) {
	sa_check(!(ghost_got & 1 << which), answered);
	ghost_got |= 1 << which;
	sa_check(input.readInt(Flag::INT_32) == result[which], "C16 the caller gets the result of its call");
}
extern "C" void scn_binary_rpc_round() {
	ghost_leaf = sa_enum(0, 4);
	ghost_calls = ghost_got = ghost_sent = ghost_fails = ghost_order = ghost_cut = ghost_early = 0;
	Tree near, far;
	Network network;
	Client client(near.root, network);
	Server server(far.root);
	auto session = server.getSession();
	RequestToken tokens[2];
	request(client, near, ghost_leaf, 0, tokens[0]);
	int firstRequest = network.requests.size;
	request(client, near, 1, 1, tokens[1]);
	expected[0] = &far.leaf(ghost_leaf);
	expected[1] = &far.leaf(1);
	auto send = [&] (std::span<const char> sent) {
		ghost_sent++;
		sa_check(ghost_sent == ghost_calls, "C16 a request is answered once");
		network.responses += std::string_view(sent.data(), sent.size());
	};
	auto [first, consumed] = session.respond(std::span<char>(network.requests.data, network.requests.size), send);
	sa_check(first == ServerReaction::OK && consumed == firstRequest && ghost_calls == 1 && ghost_sent == 1, "C16 a request is answered once");
	int firstResponse = network.responses.size;
	auto [second, rest] = session.respond(std::span<char>(network.requests.data + firstRequest, network.requests.size - firstRequest), send);
	sa_check(second == ServerReaction::OK && firstRequest + rest == network.requests.size && ghost_calls == 2 && ghost_sent == 2, "C16 a request is answered once");
	ghost_cut = sa_enum(0, network.responses.size);
	network.arrived = ghost_cut;
	ghost_order = sa_enum(0, 1);
	ghost_early = sa_enum(0, 2);
	if (ghost_early < 2) {
		bool there = ghost_cut >= (ghost_early ? network.responses.size : firstResponse);
		sa_check(client.hasResponse(tokens[ghost_early]) == there, "C16 a response is announced when it arrived as a whole");
	}
	for (int i = 0; i < 2; i++) {
		int asked = i ^ ghost_order;
		sa_check(client.getResponse(tokens[asked], [&] (IStructuredInput& input) { received(input, asked); }), answered);
		sa_check(ghost_got & 1 << asked, answered);
	}
	sa_reach("received");
}
extern "C" void scn_binary_rpc_many() { // calls can be told apart
	Tree near;
	Network network;
	Client client(near.root, network);
	ghost_leaf = sa_enum(0, 4);
	RequestToken tokens[4];
	request(client, near, ghost_leaf, 0, tokens[0]);
	request(client, near, 1, 0, tokens[1]);
	request(client, near, 1, 1, tokens[2]);
	request(client, near, 1, 0, tokens[3]);
	for (int i = 0; i < 4; i++)
		for (int j = 0; j < i; j++)
			sa_check(tokens[i] != tokens[j], "C16 requests have different tokens");
	sa_reach("sent");
}
extern "C" void scn_binary_rpc_deep() { // methods deeper than the declared depth
	ghost_thrown = ghost_sent = 0;
	Tree near, below, belowThat;
	near.add(near.deep, 2, below.root);
	below.add(below.group, 2, belowThat.root);
	Network network;
	Client client(near.root, network);
	ghost_leaf = sa_enum(0, 2);
	try {
		client.send({}, ghost_leaf == 0 ? &below.a : ghost_leaf == 1 ? &below.e : &belowThat.b, [] (IStructuredOutput& output, RequestToken) { output.writeInt(Flag::INT_32, 1); });
	} catch (...) {
		ghost_thrown = 1;
	}
	sa_check(ghost_thrown && network.requests.size == 0, "C16 methods deeper than the declared depth are refused");
	sa_reach("refused");
}
extern "C" void scn_binary_rpc_cut() { // a part of a request, then the rest and what follows
	ghost_leaf = sa_enum(0, 4);
	ghost_calls = ghost_got = ghost_sent = ghost_order = ghost_early = 0;
	ghost_fails = sa_enum(0, 2);
	Tree near, far;
	Network network;
	Client client(near.root, network);
	Server server(far.root);
	auto session = server.getSession();
	RequestToken token;
	request(client, near, ghost_leaf, 0, token);
	expected[0] = &far.leaf(ghost_leaf);
	int size = network.requests.size;
	char* data = sa_buf(200);
	for (int i = 0; i < size; i++) data[i] = network.requests.data[i];
	auto send = [&] (std::span<const char> sent) {
		ghost_sent++;
		network.responses += std::string_view(sent.data(), sent.size());
	};
	ghost_cut = sa_enum(0, size - 1);
	auto [first, none] = session.respond(std::span<char>(data, ghost_cut), send);
	sa_check(first == ServerReaction::READ_ON && ghost_calls == 0 && ghost_sent == 0, "C16 an incomplete request is waited for");
	auto [second, consumed] = session.respond(std::span<char>(data, size + 50), send);
	sa_check(ghost_calls == 1, "C16 a request is answered once");
	if (ghost_fails == 1) sa_check(second == ServerReaction::DISCONNECT && ghost_sent == 0, "C16 nothing is sent when a method fails");
	else {
		sa_check(second == ServerReaction::OK && ghost_sent == 1 && consumed == size, "C16 a request is answered once");
		network.arrived = network.responses.size;
		sa_check(client.getResponse(token, [&] (IStructuredInput& input) { received(input, 0); }), answered);
	}
	sa_reach("received");
}
extern "C" { int ghost_any; }
struct AnyMethod : IRemoteCallable {
	using IRemoteCallable::getChild;
	const IRemoteCallable* getChild(int index) const override { return sa_bool() ? this : nullptr; }
	bool call(IStructuredInput* arguments, IStructuredOutput& output, Callback<> introduceResult,
			Callback<void(std::string_view)> introduceError, std::optional<UserId>) const override {
		sa_check(ghost_any == 0, "C16 a method is called once for a request");
		ghost_any = 1;
		sa_reach("called");
		if (!arguments) sa_throw_any();
		std::string_view text = arguments->readString(Flag::NONE);
		sa_assume(text.size() < 1000);
		sa_check(text.empty() || (text.data() >= begin && text.data() + text.size() <= end), "C16 arguments are read from the request only");
		switch (sa_enum(0, 3)) {
			case 0: sa_throw_any();
			case 1: introduceError("any"); return true;
			case 2: return false;
			default: introduceResult(); output.writeInt(Flag::INT_32, arguments->readInt(Flag::INT_32));
		}
		return true;
	}
	const char* begin = nullptr;
	const char* end = nullptr;
};
extern "C" void scn_binary_rpc_any() { // any bytes
	ghost_any = 0;
	AnyMethod method;
	Server server(method);
	auto session = server.getSession();
	SA::Arbitrary input;
	method.begin = input.data;
	method.end = input.data + input.size;
	auto [reaction, consumed] = session.respond(std::span<char>(input), [&] (std::span<const char> sent) {
		sa_check(ghost_any == 1, "C16 nothing is sent before a method was called or twice");
		ghost_any = 2;
		sa_check(sent.size() >= 6, "C16 a response has a header");
	});
	if (reaction == ServerReaction::OK) {
		sa_check(ghost_any == 2, "C16 a request is answered once");
		sa_check(consumed >= 6 && consumed <= input.size, "C16 a request consumes only its own bytes");
		sa_reach("answered");
	} else sa_check(ghost_any < 2, "C16 only a complete request is answered");
	if (reaction == ServerReaction::READ_ON) sa_check(ghost_any == 0, "C16 an incomplete request is waited for");
	sa_check(reaction != ServerReaction::WRONG_REPLY, "C16 a server is not given responses");
}
