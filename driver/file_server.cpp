// stubs: files. Which files the file servers open for which requested paths, and how much of them is sent
#include "sa.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
using namespace Bomba;
extern "C" {
int sa_exact_strings = 1;
int ghost_length;      // of the path
int ghost_first, ghost_second, ghost_third, ghost_fourth, ghost_fifth, ghost_sixth; // its characters: 0 '.', 1 '/', 2 another
int ghost_opened;
long ghostly_size;
bool ghostly_open, ghostly_good, ghostly_failed;
long ghostly_amount;
}
static const char* root;
static bool other(char c) { return c != '.' && c != '/'; }
static char pick(int which) {
	if (which == 0) return '.';
	if (which == 1) return '/';
	char c = sa_buf(1)[0];
	sa_assume(c != '.' && c != '/');
	return c;
}
void opened(const std::filesystem::path& path) {
	ghost_opened++;
	const std::string& text = path.native();
	size_t at = strlen(root);
	sa_check(text.size() > at, "C17 only files in the folder are opened");
	if (text.size() <= at) return;
	for (size_t i = 0; i < at; i++) sa_check(text[i] == root[i], "C17 only files in the folder are opened");
	if (root[at - 1] != '/') {
		sa_check(text[at] == '/', "C17 only files in the folder are opened");
		at++;
	}
	bool start = true; // of a component
	for (; at < text.size(); at++) {
		if (start) sa_check(text[at] != '.', "C17 no hidden files and no parent folders are opened");
		start = text[at] == '/';
	}
	sa_reach("opened");
}
struct Starter : IWriteStarter {
	void writeUnknownSize(std::string_view, Callback<void(GeneralisedBuffer&)> filler) override { }
	void writeKnownSize(std::string_view, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override { sa_reach("sent"); }
};
static char* text;
static std::string_view someText() {
	text = sa_buf(6);
	ghost_length = sa_enum(0, 6);
	if (ghost_length > 0) { ghost_first = sa_enum(0, 2); text[0] = pick(ghost_first); }
	if (ghost_length > 1) { ghost_second = sa_enum(0, 2); text[1] = pick(ghost_second); }
	if (ghost_length > 2) { ghost_third = sa_enum(0, 2); text[2] = pick(ghost_third); }
	if (ghost_length > 3) { ghost_fourth = sa_enum(0, 2); text[3] = pick(ghost_fourth); }
	if (ghost_length > 4) { ghost_fifth = sa_enum(0, 2); text[4] = pick(ghost_fifth); }
	if (ghost_length > 5) { ghost_sixth = sa_enum(0, 2); text[5] = pick(ghost_sixth); }
	return std::string_view(text, ghost_length);
}
extern "C" void scn_files_contained() {
	root = "/w/r";
	ghost_opened = 0;
	ghostly_size = sa_int(0, 1l << 40);
	ghostly_open = sa_bool();
	ghostly_failed = false;
	DynamicFileServer server{std::filesystem::path(root)};
	Starter starter;
	std::string_view path = someText();
	try {
		server.get(path, starter);
	} catch (...) {}
	sa_reach("done");
}
struct Counter : IWriteStarter {
	void writeUnknownSize(std::string_view, Callback<void(GeneralisedBuffer&)> filler) override { sa_check(false, "C17 a file is announced with its size"); }
	void writeKnownSize(std::string_view type, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
		sa_check(size == ghostly_size, "C17 a file is announced with its size");
		auto ignore = [] (std::span<const char>) {};
		NonOwningStreamingBuffer<1024> buffer(ignore);
		filler(buffer);
		sa_check(!ghostly_failed, "C17 a file that became shorter is not sent as whole");
		sa_check(buffer.size() == size, "C17 as much of a file is sent as was announced");
		sa_reach("sent");
	}
};
extern "C" void scn_files_size() {
	root = "/w/r";
	ghost_opened = 0;
	ghostly_size = sa_int(0, 1l << 40);
	ghostly_open = sa_bool();
	ghostly_failed = false;
	DynamicFileServer server{std::filesystem::path(root)};
	Counter starter;
	try {
		bool sent = server.get("/a.txt", starter);
		sa_check(!sent || ghostly_open, "C17 a file that cannot be opened is not sent");
		sa_reach(sent ? "found" : "missing");
	} catch (...) {
		sa_reach("failed");
	}
}
struct Kept : IWriteStarter {
	void writeUnknownSize(std::string_view, Callback<void(GeneralisedBuffer&)> filler) override { }
	void writeKnownSize(std::string_view type, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
		auto ignore = [] (std::span<const char>) {};
		NonOwningStreamingBuffer<1024> buffer(ignore);
		filler(buffer);
		sa_reach("sent");
	}
};
extern "C" void scn_files_cached() {
	auto* server = reinterpret_cast<CachingFileServer*>(sa_buf(sizeof(CachingFileServer)));
	sa_opaque(server);
	ghost_opened = 0;
	Kept starter;
	SA::Arbitrary path(0, 1000);
	try {
		server->CachingFileServer::get(path, starter);
	} catch (...) {}
	sa_check(ghost_opened == 0, "C17 a caching server opens no files when it's asked for them");
}
