// Threads use the same objects at the same time
#include "sa.hpp"
#include "bomba_download_server.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
struct AnyStarter : IWriteStarter {
	void writeUnknownSize(std::string_view, Callback<void(GeneralisedBuffer&)> filler) override { give(filler); }
	void writeKnownSize(std::string_view, int64_t, Callback<void(GeneralisedBuffer&)> filler) override { give(filler); }
	void give(Callback<void(GeneralisedBuffer&)>& filler) {
		NonOwningStreamingBuffer<64> buffer([] (std::span<const char>) { if (sa_bool()) sa_throw_any(); });
		if (sa_bool()) filler(buffer);
	}
};
// any of the public functions of a CachingFileServer, on threads of their own
extern "C" void scn_caching_threads() {
	auto* server = reinterpret_cast<CachingFileServer*>(sa_buf(sizeof(CachingFileServer)));
	sa_opaque(server);
	sa_shared(server, sizeof(CachingFileServer));
	AnyStarter starter;
	// the state is unknown, one call shows what any call can do
	SA::Arbitrary path(0, 1000);
	try {
		switch (sa_enum(0, 7)) {
			case 0: if (server->CachingFileServer::get(path, starter)) sa_reach("served"); break;
			case 1: server->reload(); sa_reach("reloaded"); break;
			case 2: server->reset(); break;
			case 3: server->addModifier([] { if (sa_bool()) sa_throw_any(); }); break;
			case 4: server->applyModifiers(); break;
			case 5: server->clearModifiers(); sa_reach("cleared"); break;
			case 6: server->addGeneratedFile(path, std::vector<char>(10)); sa_reach("generated"); break;
			default: server->addGeneratedFile(path, std::string(10, ' '));
		}
	} catch (...) {}
	sa_unlocked();
}
// files are downloaded by threads that share the server and have no lock
extern "C" void scn_dynamic_threads() {
	auto* server = reinterpret_cast<DynamicFileServer*>(sa_buf(sizeof(DynamicFileServer)));
	sa_opaque(server);
	sa_shared(server, sizeof(DynamicFileServer));
	AnyStarter starter;
	SA::Arbitrary path(0, 1000);
	try {
		if (server->DynamicFileServer::get(path, starter)) sa_reach("served");
	} catch (...) {}
	sa_unlocked();
}
// connections are started and served by threads that share the server
struct AnyGet : IHttpGetResponder {
	bool get(std::string_view, IWriteStarter& writer) override {
		sa_reach("get");
		return sa_bool();
	}
};
struct AnyPost : IHttpPostResponder {
	bool post(std::string_view, std::string_view, std::span<char>, IWriteStarter& writer) override {
		sa_reach("post");
		return sa_bool();
	}
};
extern "C" void scn_http_threads() {
	using Server = HttpServer<>;
	AnyGet get;
	AnyPost post;
	auto* server = new(sa_buf(sizeof(Server))) Server(get, post);
	sa_shared(server, sizeof(Server));
	sa_shared(&get, sizeof(get));
	sa_shared(&post, sizeof(post));
	auto session = server->getSession();
	SA::Arbitrary data(0, 1000);
	try {
		reinterpret_cast<ITcpResponder&>(session).respond(data, [] (std::span<const char>) {});
	} catch (...) {}
}
