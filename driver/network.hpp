#pragma once
#include "text.hpp"
#include "bomba_core.hpp"
using Wire = SizedText<250>;
using namespace Bomba;
struct Network : ITcpClient { // behaves as the description of ITcpClient says
	Wire requests;
	Wire responses;
	int arrived = 0;
	int used = 0;
	bool available = false; // whether the rest of the responses arrives when it's waited for
	struct Kept { uint32_t id; int from; int size; bool here; } kept[3] = {};
	void writeRequest(std::span<char> written) override { requests += std::string_view(written.data(), written.size()); }
	using Reader = Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char> input, bool identified)>;
	void keep(uint32_t id, int64_t size) {
		for (auto& it : kept) if (!it.here) {
			it = {id, used, int(size), true};
			return;
		}
	}
	void look(RequestToken token, Reader& reader, bool wait) {
		for (auto& it : kept) if (it.here && it.id == token.id) {
			auto [reaction, id, size] = reader(std::span<char>(responses.data + it.from, it.size), true);
			sa_check(reaction == ServerReaction::OK, PROPERTY " a response that was found before is found again");
			if (wait) it.here = false;
			return;
		}
		while (true) {
			while (arrived > used) {
				auto [reaction, id, size] = reader(std::span<char>(responses.data + used, arrived - used), false);
				sa_check(reaction != ServerReaction::DISCONNECT, PROPERTY " well formed responses are read");
				if (reaction == ServerReaction::DISCONNECT) sa_assume(false);
				if (reaction == ServerReaction::READ_ON) break;
				sa_check(size > 0 && size <= arrived - used, PROPERTY " a response consumes only its own bytes");
				if (reaction == ServerReaction::WRONG_REPLY || !wait) keep(id.id, size);
				used += size;
				if (reaction == ServerReaction::OK) return;
			}
			if (!wait) return;
			if (arrived == responses.size) {
				sa_check(false, PROPERTY " a response that arrived is given to who asked for it");
				sa_assume(false);
			}
			arrived = responses.size;
		}
	}
	void getResponse(RequestToken token, Reader reader) override { look(token, reader, true); }
	void tryToGetResponse(RequestToken token, Reader reader) override { look(token, reader, false); }
};
