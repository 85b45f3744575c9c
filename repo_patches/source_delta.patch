From b066e9294a8ba50a38196c6f33a47abdfde01af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 01/60] fix: make the functions defined in headers inline so
 that several translation units can include them

---
 bomba_core.hpp       | 14 +++++++++-----
 bomba_rpc_object.hpp |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..39c42ec 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1,7 +1,11 @@
 ﻿#ifndef BOMBA_CORE
 #define BOMBA_CORE
+#include <algorithm>
+#include <concepts>
+#include <cstdint>
 #include <optional>
 #include <array>
+#include <string>
 #include <string_view>
 #include <span>
 #include <tuple>
@@ -17,25 +21,25 @@ namespace Bomba {
 struct ParseError : std::runtime_error {
 	using std::runtime_error::runtime_error;
 };
-void parseError(std::string_view problem) {
+inline void parseError(std::string_view problem) {
 	throw ParseError(std::string(problem));
 }
 
 struct MethodNotFoundError : std::runtime_error {
 	using std::runtime_error::runtime_error;
 };
-void methodNotFoundError(std::string_view problem) {
+inline void methodNotFoundError(std::string_view problem) {
 	throw MethodNotFoundError(std::string(problem));
 }
 
 struct RemoteError : std::runtime_error {
 	using std::runtime_error::runtime_error;
 };
-void remoteError(std::string_view problem) {
+inline void remoteError(std::string_view problem) {
 	throw RemoteError(std::string(problem));
 }
 
-void logicError(std::string_view problem) {
+inline void logicError(std::string_view problem) {
 	throw std::logic_error(std::string(problem));
 }
 #endif
@@ -283,7 +287,7 @@ struct IStructuredOutput {
 	}
 };
 
-auto IStructuredOutput::ArrayFiller::writeObject(int size) {
+inline auto IStructuredOutput::ArrayFiller::writeObject(int size) {
 	return ObjectFiller(introduceMember(), size);
 }
 
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..7515ec9 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -656,7 +656,7 @@ struct RpcLambdaInformationHolder {
 	};
 } // namespace Detail
 
-Detail::NamedFlagSetter name(const char* value) {
+inline Detail::NamedFlagSetter name(const char* value) {
 	return Detail::NamedFlagSetter(value);
 }
 
-- 
2.43.0


From 6ae4c26bdf4c0044d034e1ddcf32cd1c7ef05aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 02/60] fix: appending a character to a full NonExpandingBuffer
 wrote past its end

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 39c42ec..040e316 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -425,6 +425,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.empty()) [[unlikely]]
+			return *this; // Full and unable to grow
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From 489d5cb6ce2af5778ae3245e4c5367ac5e30a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 03/60] fix: clearing a buffer did not reset its size

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 040e316..5cebb03 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -468,6 +468,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void restart(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -527,7 +531,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		restart({_basic.data(), _basic.size()});
 	}
 };
 
@@ -578,7 +582,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		restart({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From 4da0371f68830702cdbadeb653439cbbb6ff3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 04/60] fix: typeToFlags had no return value for char, long
 long and long double

---
 bomba_core.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5cebb03..e5e4988 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -143,6 +143,16 @@ namespace SerialisationFlags {
 		else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
 		else if constexpr(std::is_same_v<T, float>) return FLOAT_32;
 		else if constexpr(std::is_same_v<T, double>) return FLOAT_64;
+		else if constexpr(std::is_integral_v<T>) { // Types that are distinct from the types above, but can be represented as one of them
+			static_assert(sizeof(T) <= 8, "Integer type too large");
+			if constexpr(sizeof(T) == 1) return std::is_signed_v<T> ? INT_8 : UINT_8;
+			else if constexpr(sizeof(T) == 2) return std::is_signed_v<T> ? INT_16 : UINT_16;
+			else if constexpr(sizeof(T) == 4) return std::is_signed_v<T> ? INT_32 : UINT_32;
+			else return std::is_signed_v<T> ? INT_64 : UINT_64;
+		} else {
+			static_assert(std::is_floating_point_v<T>, "Not a numeric type");
+			return FLOAT_64;
+		}
 	}
 
 	template <typename Functor>
-- 
2.43.0


From 09e4b8330deddd957e821eff45871620a3df4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 05/60] fix: reference members initialised with nullptr do not
 compile with other compilers than GCC

---
 bomba_http.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..bcbdd14 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -527,7 +527,7 @@ struct DummyPostResponder : IHttpPostResponder {
 
 template <BetterAssembledString ResponseStringType = std::string>
 class HtmlPostResponder : public IHttpPostResponder {
-	IRemoteCallable& _callable = nullptr;
+	IRemoteCallable& _callable;
 public:
 	HtmlPostResponder(IRemoteCallable& callable) : _callable(callable) {}
 
@@ -573,7 +573,7 @@ class RpcGetResponder : public IHttpGetResponder {
 	IHttpGetResponder& _provider;
 	IRemoteCallable& _callable;
 	static constexpr DownloadIfFilePresent<HtmlMessageEncoding<ResponseStringType>> defaultDispatcher = {};
-	const IHttpDispatcher& _dispatcher = nullptr;
+	const IHttpDispatcher& _dispatcher;
 
 public:
 	RpcGetResponder(IHttpGetResponder& provider, IRemoteCallable& callable, const IHttpDispatcher& dispatcher = defaultDispatcher)
-- 
2.43.0


From 9e26981fee521b8bd0e875bd4dfcfde51c0d1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 06/60] fix: the size in the Content-Length header was trusted
 even if it was negative, invalid or larger than the received data

---
 bomba_http.hpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bcbdd14..6b9e0c5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -49,7 +49,7 @@ struct HttpParseState {
 			parsePosition = position;
 		}
 
-		if (position == std::ssize(input)) {
+		if (position >= std::ssize(input)) {
 			return {ServerReaction::READ_ON, position - 1};
 		}
 		// Parse it line by line
@@ -111,13 +111,16 @@ struct HttpParseState {
 				}
 				position++;
 			}
-			if (position >= std::ssize(input)) {
+			if (position + 1 >= std::ssize(input)) { // The line is used only when it's complete
 				return {ServerReaction::READ_ON, position - 1};
 			}
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				auto parsed = std::from_chars(attributeValue.data(), attributeValue.data() + attributeValue.size(), bodySize);
+				if (parsed.ec != std::errc() || bodySize < 0) {
+					return {ServerReaction::DISCONNECT, 0};
+				}
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
@@ -680,21 +683,20 @@ public:
 				}
 			}
 
-			if (_state.requestType == ParseState::POST_REQUEST) {
-				if (_state.bodySize == -1) {
+			if (_state.bodySize == -1) {
+				if (_state.requestType == ParseState::POST_REQUEST) {
+					restore();
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
-			int consuming = _state.parsePosition + _state.bodySize;
-			
+				_state.bodySize = 0;
+			}
+			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
+
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
@@ -914,12 +916,15 @@ public:
 					}
 				}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
+				if (state.bodySize == -1) {
+					state.bodySize = 0; // The size was not in the header
+				}
+				if (std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
 					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
 				}
 			
 				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + std::max(0, state.bodySize);
+					int offset = state.parsePosition + state.bodySize;
 					state = ParseState{};
 					_lastTokenRead.id++;
 					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
@@ -930,7 +935,7 @@ public:
 						(state.resultCode >= 200 && state.resultCode < 300));
 				if (!identified)
 					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
+				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + state.bodySize};
 			});
 		}
 	}
-- 
2.43.0


From 44d92b7f5692ed6278c8728c78858b9fe8286e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 07/60] fix: incomplete HTTP request and status lines were read
 past their end

---
 bomba_http.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 6b9e0c5..1dd710d 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -634,7 +634,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -646,8 +646,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) [[unlikely]]
+					return false; // Incomplete request line
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -846,13 +848,15 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			if (separator1 >= std::ssize(firstLine)) [[unlikely]]
+				return false; // Incomplete status line
+			int separator2 = separator1;
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
+			std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
 			return true;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
-- 
2.43.0


From 1694fc549425413305d03a915f5c4399bc97c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 08/60] fix: the content type and the connection header of an
 HTTP request leaked into the next request of the connection

---
 bomba_http.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1dd710d..64fe918 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -672,8 +672,7 @@ public:
 		std::pair<ServerReaction, int64_t> respond(
 					std::span<char> input, Callback<void(std::span<const char>)> writer) override {
 			auto restore = [this] () {
-				_state.reset();
-				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state = ParseState{};
 			};
 
 			// Locate the header's span
@@ -790,8 +789,9 @@ public:
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From 0ff399c2a2a3e1943ac585a025719c43cda603e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 09/60] fix: wrong line ending in the response to an unknown
 HTTP method

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 64fe918..f63b74c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -784,7 +784,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From e058abcd834fa484b7da5b88db2bad5eeba0fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 10/60] fix: an error after starting an HTTP response sent a
 second response to the same request

---
 bomba_http.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f63b74c..9b0323c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -730,7 +730,9 @@ public:
 					void writeUnknownSize(std::string_view resourceType, Callback<void(GeneralisedBuffer&)> filler) override {
 						ExpandingBufferType expandingBuffer;
 						startCorrectResponse(expandingBuffer, resourceType);
+						startedResponse = false; // Nothing is sent if the filler fails
 						filler(expandingBuffer);
+						startedResponse = true;
 						std::string_view view = expandingBuffer;
 						std::to_chars(const_cast<char*>(&view[sizeof(correctIntro)]),
 								const_cast<char*>(&view[sizeof(correctIntro) + sizeof(unsetSize)]),
@@ -749,7 +751,7 @@ public:
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -760,7 +762,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -769,6 +771,10 @@ public:
 						}
 					}
 				} catch (...) {
+					if (correctResponseWriter.startedResponse) {
+						restore();
+						return {ServerReaction::DISCONNECT, consuming}; // A part of another response was already sent
+					}
 					constexpr std::string_view errorMessage =
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
-- 
2.43.0


From 910456b6c717a7b9b3c59e168a69096edf589fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 11/60] fix: reading a form without a value at its end indexed
 behind the end of the message

---
 bomba_http.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9b0323c..48da15f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -156,7 +156,7 @@ void demangleUtf8Url(std::string_view input, StringType& output) {
 			if (i + 3 > input.size()) [[unlikely]]
 				return;
 			unsigned char escaped = {};
-			std::from_chars(&input[i + 1], &input[i + 3], escaped, 16);
+			std::from_chars(input.data() + i + 1, input.data() + i + 3, escaped, 16);
 			output += escaped;
 			i += 2;
 		} else [[likely]]
@@ -192,7 +192,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (index + 3 > std::ssize(input)) [[unlikely]]
 					return 0;
 				int escaped = {};
-				std::from_chars(&input[index + 1], &input[index + 3], escaped, 16);
+				std::from_chars(input.data() + index + 1, input.data() + index + 3, escaped, 16);
 				return escaped;
 			};
 			int decoded = urlDecode(i);
@@ -350,7 +350,7 @@ struct HtmlMessageEncoding {
 		int64_t readInt(Flags) final override {
 			int end = getEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
+			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + end, result);
 			_position = end;
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
@@ -360,7 +360,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
@@ -401,14 +400,15 @@ struct HtmlMessageEncoding {
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents))
+					_position++;
 				onEach(_demangled, index);
 				index++;
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
+			if (_position < std::ssize(_contents) && _contents[_position] == '&')
 				_position++;
 			while (_position < std::ssize(_contents) && _contents[_position] != '&')
 				_position++;
-- 
2.43.0


From 46cea3e31872992b1766ad2be4d5b1144834289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 12/60] fix: identifying a type in a form looked at an
 unrelated position, also behind the end of the value

---
 bomba_http.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 48da15f..9972a8c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -330,9 +330,9 @@ struct HtmlMessageEncoding {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
+					if (demangledPos + 1 >= std::ssize(demangled)) [[unlikely]]
 						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					if (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+')
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -340,8 +340,7 @@ struct HtmlMessageEncoding {
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
-- 
2.43.0


From bcf4b92d73cd371a09ed9a74b92cb6bce4b59925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 13/60] fix: forms were written with unterminated numbers and
 unescaped names, and read on after being told to stop

---
 bomba_http.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9972a8c..9ff2650 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -174,7 +174,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
@@ -401,7 +401,8 @@ struct HtmlMessageEncoding {
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
 				if (_position < std::ssize(_contents))
 					_position++;
-				onEach(_demangled, index);
+				if (!onEach(_demangled, index))
+					break;
 				index++;
 			}
 			_objectStarted = false;
@@ -433,10 +434,10 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32;
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto end = std::to_chars(bytes.data(), bytes.data() + SIZE, value).ptr;
+			mangleHttpResponse(std::string_view(bytes.data(), end - bytes.data()), _contents); // The exponent can contain a plus
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
@@ -479,7 +480,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From 400f7fea91644232273ee83437d421e89f28bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 14/60] fix: binary format wrote sizes twice and bools wider
 than they are read if a numeric type was set, and accepted negative sizes

---
 bomba_binary_protocol.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..cfc8b91 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -10,6 +10,7 @@
 #include <charconv>
 #include <cstring>
 #include <cmath>
+#include <limits>
 #include <bit>
 
 namespace Bomba {
@@ -83,7 +84,7 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+				return readInt(flags);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -106,7 +107,7 @@ struct BinaryFormat {
 		}
 		std::string_view readString(Flags flags) final override {
 			auto length = readSize(flags);
-			if (_position + length > _contents.size()) [[unlikely]] {
+			if (length < 0 || length > std::ssize(_contents) - _position) [[unlikely]] {
 				parseError("Incomplete request");
 				good = false;
 				return "";
@@ -130,9 +131,9 @@ struct BinaryFormat {
 		}
 		
 		void startReadingArray(Flags flags) final override {
-			_depth++;
-			if (_depth == MaxDepth)
+			if (_depth + 1 >= MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
+			_depth++;
 			_sizes[_depth] = readSize(flags);
 		}
 		bool nextArrayElement(Flags) final override {
@@ -184,7 +185,9 @@ struct BinaryFormat {
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+				return writeInt(flags, size);
+			if (size > int64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+				throw std::logic_error("Too large for the size type of Bomba::BinaryProtocol");
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
@@ -200,8 +203,8 @@ struct BinaryFormat {
 			writeSize(flags, value.size());
 			_contents += value;
 		}
-		void writeBool(Flags flags, bool value) final override {
-			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
+		void writeBool(Flags, bool value) final override {
+			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::INT_8, _contents);
 		}
 		void writeNull(Flags) final override {
 		}
-- 
2.43.0


From 1c7dcbd0ff20abaf1c6ab5145630599facc69aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 15/60] fix: binary server threw exceptions on malformed
 requests and did not respect the size of the message

---
 bomba_binary_protocol.hpp | 55 +++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index cfc8b91..8ce2d70 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -262,36 +262,47 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
-
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			using InputType = typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input;
+			InputType header(std::string_view(input.data(), input.size()));
+
+			int messageId = header.readInt(SerialisationFlags::UINT_32);
+			int64_t inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < header.position())
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
+			InputType in(std::string_view(input.data(), inputSize)); // Must not read the next message
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
+
+			try {
+				const IRemoteCallable* target = &parent.callable;
+				while (target->getChild(0)) {
+					int request = in.readInt(SerialisationFlags::UINT_8);
+					target = target->getChild(request);
+					if (!target)
+						return {ServerReaction::DISCONNECT, 0};
+				}
+
+				typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+				out.writeInt(SerialisationFlags::UINT_32, messageId);
+				auto sizePosition = outputBuffer.size();
+				out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			const IRemoteCallable* target = &parent.callable;
-			while (target->getChild(0)) {
-				int request = in.readInt(SerialisationFlags::UINT_8);
-				target = target->getChild(request);
-				if (!target)
+				target->call(&in, out, [&] {}, [&] (std::string_view problem) {
+					out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
+				});
+				if (outputBuffer.size() > int64_t(std::numeric_limits<SizeType>::max()))
 					return {ServerReaction::DISCONNECT, 0};
+				SizeType outputSize = outputBuffer.size();
+				memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			} catch (...) {
+				return {ServerReaction::DISCONNECT, 0}; // The protocol has no way to announce that a request was malformed
 			}
 
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
-			out.writeInt(SerialisationFlags::UINT_32, messageId);
-			auto sizePosition = outputBuffer.size();
-			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
-
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
-			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
-
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, inputSize};
 		}
 	};
 
-- 
2.43.0


From 17536283a1e93731d8dedd7ddf4d1bf9be7341b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 16/60] fix: binary client returned default values if no
 complete response arrived and accepted responses smaller than their header

---
 bomba_binary_protocol.hpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 8ce2d70..cac199f 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -320,18 +320,21 @@ class BinaryProtocolClient : public IRpcResponder {
 	auto getResponseReader(RequestToken token, Callback<void(IStructuredInput&)> operation) {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
-			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			using InputType = typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input;
+			InputType header(std::string_view(data.data(), data.size()));
+			if (data.size() < sizeof(int) + sizeof(SizeType))
+				return {ServerReaction::READ_ON, RequestToken(), 0};
+			RequestToken receivedToken = { uint32_t(header.readInt(SerialisationFlags::UINT_32)) };
+			SizeType size = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (int64_t(size) < header.position())
+				return {ServerReaction::DISCONNECT, receivedToken, 0};
 			if (data.size() < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
+			InputType in(std::string_view(data.data(), size)); // Must not read the next message
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
 			operation(in);
 			return {ServerReaction::OK, token, size};
 		};
@@ -364,6 +367,8 @@ public:
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
 		request(out, token);
 
+		if (outputBuffer.size() > int64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+			throw std::logic_error("Request too large for the size type of Bomba::BinaryProtocol");
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
@@ -372,8 +377,14 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
-		return true;
+		bool received = false;
+		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) {
+			received = true;
+			reader(input);
+		}));
+		if (!received)
+			remoteError("No valid response was received");
+		return received;
 	}
 	bool hasResponse(RequestToken token) override {
 		bool hasIt = false;
-- 
2.43.0


From e1fe8736a002940d9bc0f24a267db3eb28477c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 17/60] fix: an object with unknown or repeated members was not
 read to its end

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..9bb7c66 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -440,7 +440,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if not the last one
 #endif
 		});
 		return format.good;
-- 
2.43.0


From 1bc7de1d7eb7d15f66bb3bd09bcc1b7bc3b44f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 18/60] fix: reading a longer array into a std::array stopped
 in the middle of it

---
 bomba_core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index e5e4988..abc6ce0 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1034,8 +1034,11 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			if (i < int(size)) [[likely]]
+				TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			else
+				in.skipObjectElement(flags);
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From 69338d0ed0c5058a9b165aff1242b0f1868c1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 19/60] fix: maps inside of objects with known layout were
 written without keys, and keys were used after reading over them

---
 bomba_core.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index abc6ce0..ceaa225 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1115,20 +1115,23 @@ concept SerialisableMap = requires(M map, M secondMap, typename M::key_type key)
 template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
+	static constexpr SerialisationFlags::Flags layoutFlags(SerialisationFlags::Flags flags) { // The keys are never known in advance
+		return SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN);
+	}
 	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
-		out.startWritingObject(flags, value.size());
+		out.startWritingObject(layoutFlags(flags), value.size());
 		int index = 0;
 		for (auto& it : value) {
-			out.introduceObjectMember(flags, std::string_view(it.first), index);
+			out.introduceObjectMember(layoutFlags(flags), std::string_view(it.first), index);
 			TypedSerialiser<ValueType>::serialiseMember(out, it.second, flags);
 			index++;
 		}
-		out.endWritingObject(flags);
+		out.endWritingObject(layoutFlags(flags));
 	}
 
 	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
 		if (value.empty()) {
-			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
+			in.readObject(layoutFlags(flags), [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
 				return true;
 			});
@@ -1136,13 +1139,14 @@ struct TypedSerialiser<Map> {
 			// If there were some elements, update them and move them into a new map
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
-			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+			in.readObject(layoutFlags(flags), [&] (std::optional<std::string_view> elementName, int) {
+				typename Map::key_type key(*elementName); // The view is not valid after reading the value
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+					TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From b221174c7f394cead4c603b1c4e0eb9d9405155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 20/60] fix: the value of an unknown argument was interpreted
 as the name of the following one

---
 bomba_http.hpp       | 2 --
 bomba_rpc_object.hpp | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9ff2650..c9ee25c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -408,8 +408,6 @@ struct HtmlMessageEncoding {
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_position < std::ssize(_contents) && _contents[_position] == '&')
-				_position++;
 			while (_position < std::ssize(_contents) && _contents[_position] != '&')
 				_position++;
 		}
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 7515ec9..2059f2c 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -414,6 +414,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
+				if (name.has_value())
+					in.skipObjectElement(flags); // Unknown argument
 				return;
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
-- 
2.43.0


From 1bab2b563f0fff444d839af71e67a64966f379b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 21/60] fix: assigning to a pending Future left a part of its
 state in the source, polling Future<void> discarded its error

---
 bomba_rpc_object.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 2059f2c..932eb5a 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -263,7 +263,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			std::swap(_reader, other._reader);
+			std::swap(_responder, other._responder);
+			std::swap(_token, other._token);
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -276,10 +281,13 @@ class Future : Detail::FutureBase<Returned> {
 
 	void cleanup() {
 		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
+			try {
+				get();
+			} catch (...) {} // There is nobody to handle the error of a call whose result is not used
 		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value = std::nullopt;
 	}
 public:
 	using Base::FutureBase;
@@ -328,7 +336,7 @@ public:
 	bool is_ready() const {
 		if (_done)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token);
 	}
 };
 
-- 
2.43.0


From 743a195149d23d7600c25e080da6af5cb7507035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 22/60] fix: a remote call returned an uninitialised value if
 no response was obtained

---
 bomba_rpc_object.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 932eb5a..a6b2b84 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -496,14 +496,16 @@ struct RpcLambdaInformationHolder {
 
 		Returned readResponse(IRpcResponder* responder, RequestToken token) const override {
 			if constexpr(std::is_void_v<Returned>) {
-				responder->getResponse(token, [&](IStructuredInput& in) {
+				if (!responder->getResponse(token, [&](IStructuredInput& in) {
 					in.readNull(Flags);
-				});
+				}))
+					remoteError("No response to the remote call");
 			} else {
-				Returned result;
-				responder->getResponse(token, [&](IStructuredInput& in) {
+				Returned result = {};
+				if (!responder->getResponse(token, [&](IStructuredInput& in) {
 					TypedSerialiser<Returned>::deserialiseMember(in, result, Flags);
-				});
+				}))
+					remoteError("No response to the remote call");
 				return result;
 			}
 		}
-- 
2.43.0


From 57fd71e61e7067a873762b2e1b0719e244f865c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 23/60] fix: reading a JSON number at the end of the input
 indexed behind the end and failed

---
 bomba_json.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..92b0935 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -102,23 +102,25 @@ struct BasicJson {
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
-			_position += got.ptr - &_contents[_position];
+			const char* start = _contents.data() + _position;
+			std::from_chars_result got = std::from_chars(start, _contents.data() + _contents.size(), result);
+			_position += got.ptr - start;
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
+			char next = peekChar<false>();
+			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
 		double readFloat(Flags flags) final override {
 			eatWhitespace();
 			double result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
-			_position += got.ptr - &_contents[_position];
+			const char* start = _contents.data() + _position;
+			std::from_chars_result got = std::from_chars(start, _contents.data() + _contents.size(), result);
+			_position += got.ptr - start;
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON double");
 			return result;
-- 
2.43.0


From b00fc54baad8077f038a266be6bb1ad88f7b7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 24/60] fix: negative floating point numbers were identified as
 integers in JSON

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 92b0935..f3c0dce 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -79,7 +79,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + 1; _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From acc56fcb7eb46d513edd259313b5e1ce6bea8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 25/60] fix: skipping a JSON value mishandled escape sequences
 and swallowed the bracket behind a scalar value

---
 bomba_json.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index f3c0dce..88771be 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -218,9 +218,13 @@ struct BasicJson {
 		void skipObjectElement(Flags) final override {
 			eatWhitespace();
 			int depth = 0;
+			if (char first = peekChar(); first == '}' || first == ']') [[unlikely]]
+				fail("Expected a JSON value");
 			do {
 				char readingChar = peekChar();
-				if (readingChar == '{' || readingChar == '[') {
+				if (depth == 0 && (readingChar == '}' || readingChar == ']')) {
+					break; // Ends what surrounds the skipped value
+				} else if (readingChar == '{' || readingChar == '[') {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
@@ -233,9 +237,12 @@ struct BasicJson {
 					break; // eatWhitespace() was called before
 				} else if (readingChar == '"') {
 					getChar();
-					do {
+					readingChar = getChar();
+					while (readingChar != '"' && good) {
+						if (readingChar == '\\') [[unlikely]]
+							getChar();
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+					}
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From fc21688649538f9d8d6ed74404220559351f0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 26/60] fix: JSON strings were written with raw control
 characters and most escape sequences were not understood

---
 bomba_json.hpp | 73 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 88771be..be611de 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -66,6 +66,47 @@ struct BasicJson {
 			}
 		}
 		
+		int readHexNumber() {
+			int value = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				if (digit >= '0' && digit <= '9')
+					value = value * 16 + digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					value = value * 16 + digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					value = value * 16 + digit - 'A' + 10;
+				else
+					fail("Expected a hexadecimal digit in a JSON string");
+			}
+			return value;
+		}
+
+		void readUnicodeEscape() {
+			int value = readHexNumber();
+			if (value >= 0xd800 && value < 0xdc00) { // The first half of a surrogate pair
+				if (getChar() != '\\' || getChar() != 'u')
+					fail("Expected the second half of a surrogate pair in a JSON string");
+				value = 0x10000 + ((value - 0xd800) << 10) + ((readHexNumber() - 0xdc00) & 0x3ff);
+			}
+			if (value < 0x80) {
+				_resultBuffer += char(value);
+				return;
+			}
+			if (value < 0x800) {
+				_resultBuffer += char(0xc0 | (value >> 6));
+			} else {
+				if (value < 0x10000) {
+					_resultBuffer += char(0xe0 | (value >> 12));
+				} else {
+					_resultBuffer += char(0xf0 | (value >> 18));
+					_resultBuffer += char(0x80 | ((value >> 12) & 0x3f));
+				}
+				_resultBuffer += char(0x80 | ((value >> 6) & 0x3f));
+			}
+			_resultBuffer += char(0x80 | (value & 0x3f));
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -135,15 +176,23 @@ struct BasicJson {
 			
 			_resultBuffer.clear();
 			readingChar = getChar();
-			while (readingChar != '"') {
+			while (readingChar != '"' && good) {
 				if (readingChar == '\\') [[unlikely]] {
 					readingChar = getChar();
-					if (readingChar == '\\')
-						_resultBuffer += '\\';
-					else if (readingChar == '"')
-						_resultBuffer += '"';
-					else if (readingChar == 'n')
+					if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
+					else // The others represent themselves
+						_resultBuffer += readingChar;
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
@@ -301,9 +350,17 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it == '\n') [[unlikely]]
+					_contents += "\\n";
+				else if (static_cast<unsigned char>(it) < 0x20) [[unlikely]] {
+					_contents += "\\u00";
+					_contents += char('0' + (it >> 4));
+					_contents += "0123456789abcdef"[it & 0xf];
+				} else
+					_contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From 42a52acfb34aadf38cd2cc29ce1c2d4f554844dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 27/60] fix: long numbers were written to JSON without a
 terminator or not at all

---
 bomba_json.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index be611de..9ab68a0 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -323,10 +323,10 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // The longest double needs 24 characters
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto end = std::to_chars(bytes.data(), bytes.data() + SIZE, value).ptr;
+			_contents += std::string_view(bytes.data(), end - bytes.data());
 		}
 		void newLine() {
 			if (_skipNewline) [[unlikely]] {
@@ -345,7 +345,10 @@ struct BasicJson {
 			writeValue(value);
 		}
 		void writeFloat(Flags flags, double value) final override {
-			writeValue(value);
+			if (std::isfinite(value)) [[likely]]
+				writeValue(value);
+			else
+				writeNull(flags); // JSON can't express these
 		}
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
-- 
2.43.0


From f091f9b01cd475a6115094789e3c0fc98022e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 28/60] fix: JSON-RPC requests with malformed or repeated id
 had malformed responses

---
 bomba_json_rpc.hpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..93070dc 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -40,26 +40,34 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		IStructuredInput::Location paramsPosition;
 		bool idWritten = false;
 
-		auto writeId = [&] {
+		auto startResponse = [&] {
 			responding = true;
 			onResponseStarted();
 			output.startWritingObject(noFlags, 3);
 			output.introduceObjectMember(noFlags, "jsonrpc", 0);
 			output.writeString(noFlags, "2.0");
 			output.introduceObjectMember(noFlags, "id", 1);
-
+		};
+		auto writeId = [&] { // If it can't be read, nothing must be written
 			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				int64_t id = input.readInt(noFlags);
+				startResponse();
+				output.writeInt(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				std::string_view id = input.readString(noFlags);
+				startResponse();
+				output.writeString(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_FLOAT) {
+				double id = input.readFloat(noFlags);
+				startResponse();
+				output.writeFloat(noFlags, id);
 			} else {
-				input.skipObjectElement(noFlags);
+				if (identified == IStructuredInput::TYPE_NULL)
+					input.readNull(noFlags);
+				else
+					input.skipObjectElement(noFlags);
+				startResponse();
 				output.writeNull(noFlags);
 			}
 		};
@@ -110,7 +118,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 						return false;
 					}
 				} else if (*nextName == "id") {
-					if (!called) {
+					if (!called && !responding) {
 						writeId();
 						if (method && paramsPosition) {
 							input.restorePosition(noFlags, call());
@@ -228,7 +236,7 @@ template <typename HttpType, BetterAssembledString LocalStringType = std::string
 class JsonRpcClientProtocol : public IRpcResponder {
 	using Json = BasicJson<LocalStringType, GeneralisedBuffer>;
 	constexpr static auto noFlags = Json::Output::Flags::NONE;
-	HttpType& _upper = nullptr;
+	HttpType& _upper;
 public:
 	
 	RequestToken send(UserId user, const IRemoteCallable* method,
-- 
2.43.0


From 7fdab57a77b31202d6dfe68b96492c635215efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 29/60] fix: a JSON-RPC request that is neither an object nor
 an array was answered by both an empty success and an error

---
 bomba_json_rpc.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 93070dc..221c82e 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -180,14 +180,16 @@ public:
 			return false;
 		}
 
-		bool result = false;
-		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
-			constexpr auto noFlags = Json::Output::Flags::NONE;
+		constexpr auto noFlags = Json::Output::Flags::NONE;
+		typename Json::Input input(std::string_view(request.data(), request.size()));
+		auto inputType = input.identifyType(noFlags);
+		if (inputType != IStructuredInput::TYPE_ARRAY && inputType != IStructuredInput::TYPE_OBJECT) [[unlikely]] {
+			return false; // The request was total nonsense
+		}
 
-			typename Json::Input input(std::string_view(request.data(), request.size()));
+		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			typename Json::Output output(response);
 
-			auto inputType = input.identifyType(noFlags);
 			if (inputType == IStructuredInput::TYPE_ARRAY) {
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
@@ -206,13 +208,11 @@ public:
 				}
 				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
+			} else {
 				respondInternal(input, output, {});
-				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return true; // Http should not report an error here
 	}
 };
 
-- 
2.43.0


From 8789a3e28158ac0913e420e4f40958bead4ba5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 30/60] fix: JSON-RPC client returned a default value when the
 response had no result or was not successful

---
 bomba_json_rpc.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 221c82e..2f49127 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -260,10 +260,13 @@ public:
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) final override {
 		bool retval = false;
 		_upper.getResponse(token, [&reader, &retval, token] (std::span<char> message, bool success) {
-			if (!success)
+			if (!success) {
+				remoteError("Server did not respond with OK");
 				return false;
+			}
 			typename Json::Input input(std::string_view(message.data(), message.size()));
 			bool okay = true;
+			bool resultRead = false;
 			auto fail = [&okay] (std::string_view problem) {
 				parseError(problem);
 				okay = false;
@@ -293,13 +296,16 @@ public:
 					return false;
 				} else if (*nextName == "result") {
 					reader(input);
+					resultRead = true;
 				} else {
 					fail("Unknown toplevel element");
 					return false;
 				}
 				return true;
 			});
-			retval = input.good;
+			if (!resultRead)
+				fail("No result in the response");
+			retval = input.good && okay;
 			return okay;
 		});
 		return retval;
-- 
2.43.0


From 3301ade01bc4946b988ac8a6833308ee27abfd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 31/60] fix: JSON-RPC request calling an unknown method was not
 answered if its method preceded its id

---
 bomba_json_rpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 2f49127..1ef7a67 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -129,7 +129,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					if (!method) {
 						auto path = input.readString(noFlags);
 						method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
-						if (!method) [[unlikely]] {
+						if (!method && responding) [[unlikely]] { // Without id, it can be reported only after finding it
 							introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
 						}
 						if (responding && paramsPosition) {
-- 
2.43.0


From b6a9365648d444601cc643cbb8efafab00592740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 32/60] fix: client lost responses found while polling and gave
 up waiting if only a part of a response arrived

---
 bomba_sync_client.hpp   | 13 +++++++++----
 tls/tls_sync_client.hpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..1c27023 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -33,8 +33,11 @@ class SyncNetworkClient : public ITcpClient {
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
 			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT) {
+				if constexpr(doWait)
+					_responses.erase(tokenSought); // It was processed, not just checked
 				return;
+			}
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
 		}
@@ -58,11 +61,13 @@ class SyncNetworkClient : public ITcpClient {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
 				if (reaction == ServerReaction::OK)
 					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
+				else if (reaction == ServerReaction::DISCONNECT)
 					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
+				else if (reaction == ServerReaction::READ_ON)
+					break; // More data is needed
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) {
 					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
+				}
 				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
 			}
 		}
diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..650ed9e 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -39,8 +39,11 @@ class TlsSyncClient : public ITcpClient {
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
 			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT) {
+				if constexpr(doWait)
+					_responses.erase(tokenSought); // It was processed, not just checked
 				return;
+			}
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
 		}
@@ -64,11 +67,13 @@ class TlsSyncClient : public ITcpClient {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
 				if (reaction == ServerReaction::OK)
 					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
+				else if (reaction == ServerReaction::DISCONNECT)
 					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
+				else if (reaction == ServerReaction::READ_ON)
+					break; // More data is needed
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) {
 					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
+				}
 				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
 			}
 		}
-- 
2.43.0


From 82208f8c18a5d2e9e687e8b45fd656a060e96be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 33/60] fix: checking for an HTTP response blocked and
 discarded it, two responses received together were not told apart

---
 bomba_http.hpp | 83 ++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index c9ee25c..ee59ab1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -826,6 +826,7 @@ class HttpClient : public IRpcResponder {
 		});
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
+		bool received = false;
 		getResponse(token, [&] (std::span<char> data, bool success) {
 			if (!success) {
 				remoteError("Server did not respond with OK");
@@ -833,17 +834,20 @@ class HttpClient : public IRpcResponder {
 			}
 			typename HtmlMessageEncoding<LocalStringType>::Input input = {std::string_view(data.data(), data.size())};
 			reader(input);
+			received = true;
 			return true;
 		});
-		return true;
+		return received;
 	}
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
+		bool done = false;
+		ParseState state;
+		_client.tryToGetResponse(token, responseReader(state, token, done, [&] (std::span<char>, bool) {
 			has = true;
 			return true;
-		});
+		}));
 		return has;
 	}
 
@@ -866,6 +870,44 @@ class HttpClient : public IRpcResponder {
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
 	};
 
+	auto responseReader(ParseState& state, RequestToken token, bool& done, Callback<bool(std::span<char> message, bool success)> reader) {
+		return [&state, &done, token, reader, this] (std::span<char> input, bool identified)
+					-> std::tuple<ServerReaction, RequestToken, int64_t> {
+			// Locate the header's span
+			if (state.bodySize == -1) {
+				auto [reaction, position] = state.parse(input);
+				if (reaction == ServerReaction::DISCONNECT) {
+					done = true;
+				}
+				if (reaction != ServerReaction::OK) {
+					return {reaction, RequestToken{}, position};
+				}
+			}
+
+			if (state.bodySize == -1) {
+				state.bodySize = 0; // The size was not in the header
+			}
+			if (std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
+				return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+			}
+
+			ParseState message = state;
+			state = ParseState{}; // The next message may follow
+			int64_t messageSize = int64_t(message.parsePosition) + message.bodySize;
+			if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
+				_lastTokenRead.id++;
+				return {ServerReaction::WRONG_REPLY, _lastTokenRead, messageSize};
+			}
+			done = true;
+
+			reader(std::span<char>(input.begin() + message.parsePosition, input.begin() + messageSize),
+					(message.resultCode >= 200 && message.resultCode < 300));
+			if (!identified)
+				_lastTokenRead.id++;
+			return {ServerReaction::OK, _lastTokenRead, messageSize};
+		};
+	}
+
 public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
@@ -911,40 +953,7 @@ public:
 		bool done = false;
 		while (!done) {
 			ParseState state;
-			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
-						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-				// Locate the header's span
-				if (state.bodySize == -1) {
-					auto [reaction, position] = state.parse(input);
-					if (reaction == ServerReaction::DISCONNECT) {
-						done = true;
-					}
-					if (reaction != ServerReaction::OK) {
-						return {reaction, RequestToken{}, position};
-					}
-				}
-
-				if (state.bodySize == -1) {
-					state.bodySize = 0; // The size was not in the header
-				}
-				if (std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
-					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
-				}
-			
-				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + state.bodySize;
-					state = ParseState{};
-					_lastTokenRead.id++;
-					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
-				}					
-				done = true;
-
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
-						(state.resultCode >= 200 && state.resultCode < 300));
-				if (!identified)
-					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + state.bodySize};
-			});
+			_client.getResponse(token, responseReader(state, token, done, reader));
 		}
 	}
 };
-- 
2.43.0


From 7407ec239ce63c25a7934651b36267834f120dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 34/60] fix: HTTP client sent all remote calls to the root
 instead of the path of the method

---
 bomba_http.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index ee59ab1..d543585 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -817,13 +817,15 @@ class HttpClient : public IRpcResponder {
 
 	RequestToken send(UserId, const IRemoteCallable* method,
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
-		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
+		LocalStringType resource;
+		resource += '/';
+		resource += PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, resource);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		bool received = false;
@@ -912,12 +914,15 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view resource = "/") {
 		_lastTokenWritten.id++;
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
+		constexpr char correctIntro[] = " HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
+		written += "POST ";
+		written += resource;
 		written += correctIntro;
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -927,8 +932,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, RequestToken{_lastTokenWritten});
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
+				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		return _lastTokenWritten;
-- 
2.43.0


From 9c2dc5e17a8f5f015c6229088d5aa524ac20babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 35/60] fix: DynamicFileServer served any file on the disk if
 the requested path started with two slashes

---
 bomba_download_server.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..3c00f2e 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -109,14 +109,14 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
 		}
 
 		std::filesystem::path fullPath = _root;
-		fullPath.append(editedPath.substr(1));
+		fullPath /= std::filesystem::path(editedPath.substr(1)).relative_path(); // An absolute path would replace the root
 
 		if (!std::filesystem::exists(fullPath) || !std::filesystem::is_regular_file(fullPath)) {
 			std::cout << "Can't send " << fullPath << std::endl;
-- 
2.43.0


From 610d46a1bf758c3253de899cb81e0bc7edde7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 36/60] fix: files without an extension could not be served

---
 bomba_download_server.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 3c00f2e..bc69047 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -48,6 +48,8 @@ protected:
 		auto foundExtension = _extensions.find(std::string(extension));
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() <= 1) {
+			return "application/octet-stream";
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +90,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From df09c07db350ae0eb4b86d35227a7237a14383b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 37/60] fix: downloading a file that could not be read or is
 larger than 2 GiB sent uninitialised memory

---
 bomba_download_server.hpp | 11 ++++++++---
 bomba_http.hpp            |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index bc69047..3f5c02b 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -126,13 +126,18 @@ public:
 		}
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
-		std::ifstream file(fullPath);
+		std::ifstream file(fullPath, std::ios::binary);
+		if (!file.is_open()) {
+			std::cout << "Can't read " << fullPath << std::endl;
+			return false;
+		}
 		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
-				file.read(buffer.data(), amount);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
+				if (!file.read(buffer.data(), amount))
+					throw std::runtime_error("File became shorter while reading it");
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
diff --git a/bomba_http.hpp b/bomba_http.hpp
index d543585..481dd4a 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -708,7 +708,7 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
-- 
2.43.0


From df0409ea94b16e9bcbf48997931d329cb01e1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 38/60] fix: CachingFileServer was modified without locking
 when files were generated

---
 bomba_download_server.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 3f5c02b..a50f308 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -193,7 +193,7 @@ class CachingFileServer : public FileServerBase {
 		_cache.clear();
 		_fileNames.clear();
 		cacheFolder(_root, "");
-		applyModifiers();
+		FileServerBase::applyModifiers();
 	}
 
 public:
@@ -219,9 +219,21 @@ public:
 	}
 	void reset() {
 		std::lock_guard lock(_mutex);
-		clearModifiers();
+		FileServerBase::clearModifiers();
 		reloadInternal();
 	}
+	void addModifier(std::function<void()>&& modifier) {
+		std::lock_guard lock(_mutex);
+		FileServerBase::addModifier(std::move(modifier));
+	}
+	void applyModifiers() {
+		std::lock_guard lock(_mutex);
+		FileServerBase::applyModifiers();
+	}
+	void clearModifiers() {
+		std::lock_guard lock(_mutex);
+		FileServerBase::clearModifiers();
+	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
-- 
2.43.0


From 824a71dd1387517df9c1cc189a31aff71b460e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 39/60] fix: RpcLambdaHolder moved lambdas that can't be moved
 as bytes and never destroyed them

---
 bomba_dynamic_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..4224844 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,8 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_destructible_v<std::decay_t<LambdaType>> &&
+				std::is_trivially_copy_constructible_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From 39fc3c5ee9a8ef82348d14b6697b3a11bd70f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 40/60] fix: describing a dynamic object with nested objects
 accessed a null pointer

---
 bomba_dynamic_object.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 4224844..89bcf9d 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -102,11 +102,19 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		if (_info)
+			_info->subtypesAdder(filler);
+		else if (operator->())
+			operator->()->listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		if (_info)
+			_info->unnamedChildAdder(name, filler);
+		else if (operator->())
+			filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nested) {
+				operator->()->generateDescription(nested);
+			});
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
-- 
2.43.0


From c58718ce97920377f616c4fdf6f98b94af88fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 41/60] fix: JSON-WSP description doubled separators of nested
 objects and called all members after an optional one optional

---
 bomba_json_wsp_description.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..98fc1e3 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -110,6 +110,7 @@ public:
 		result.writeInt("def_order", _argCount);
 		writeJsonWspDocumentation(result, description);
 		result.introduceMember("type");
+		_optional = false;
 		writer();
 		result.writeBool("optional", _optional);
 	}
@@ -155,8 +156,7 @@ class JsonWspDescription : public IRemoteCallableDescriptionFiller {
 public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
 		if (!prefix.empty()) {
-			_path += prefix;
-			_path += '.';
+			_path += prefix; // Already ends with a separator
 		}
 		if (!name.empty()) {
 			_path += name;
-- 
2.43.0


From 13237139fc0d32976115c8b122918646c8dc1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 42/60] fix: a client that disconnected early could end the
 whole server, sessions ended in parallel could be mixed up

---
 bomba_tcp_server.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..fae84ce 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -155,7 +155,7 @@ class TcpServer {
 		typename Responder::Session _responder;
 		TcpServerBuffer _buffer;
 		Net::const_buffer _space = {};
-		TcpServer& _parent = nullptr;
+		TcpServer& _parent;
 		int _index = {};
 
 		Session(Net::ip::tcp::socket&& socket, Responder& responder, TcpServer& parent, int index)
@@ -169,7 +169,10 @@ class TcpServer {
 			_socket.async_receive(_space, [this] (std::error_code error, int length = 0) {
 				auto startTime = std::chrono::steady_clock::now();
 
-				bool expectingMore = _buffer.receive(*this, error, length);
+				bool expectingMore = false;
+				try {
+					expectingMore = _buffer.receive(*this, error, length);
+				} catch (...) {} // An error in one session must not end the others
 
 				if (expectingMore) {
 					readSome();
@@ -186,13 +189,26 @@ class TcpServer {
 		}
 
 		void cancel() { // MUST RETURN AFTER CALLING cancel(), IT DESTROYS this
-			_socket.close();
-			_parent.destroySession(_index);
+			std::error_code error;
+			_socket.close(error);
+			_parent.destroySession(*this);
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
 			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
+#ifdef MSG_NOSIGNAL
+				constexpr auto flags = Net::socket_base::message_flags(MSG_NOSIGNAL); // A closed connection must not kill the server
+#else
+				constexpr auto flags = Net::socket_base::message_flags();
+#endif
+				size_t sent = 0;
+				while (sent < output.size()) {
+					std::error_code error;
+					size_t sentNow = _socket.send(Net::buffer(output.data() + sent, output.size() - sent), flags, error);
+					if (error)
+						break; // The next read will fail and end the session
+					sent += sentNow;
+				}
 			});
 		}
 
@@ -222,8 +238,9 @@ class TcpServer {
 		});
 	}
 
-	void destroySession(int index) {
+	void destroySession(Session& session) {
 		std::lock_guard lock(_sessionsLock);
+		int index = session._index; // Can be changed by destroying another session
 		if (index < std::ssize(_sessions) - 1) [[likely]] {
 			_sessions.back()->_index = index;
 			std::swap(_sessions[index], _sessions.back());
-- 
2.43.0


From f7ca9dffab50155ac17723865961784a42d594c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 43/60] fix: buffers counted in int lost data in responses
 above 2 GiB

---
 bomba_core.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index ceaa225..a42e410 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -429,7 +429,7 @@ private:
 class GeneralisedBuffer {
 	using BufferType = std::span<char>;
 	BufferType _buffer;
-	int _size = 0;
+	int64_t _size = 0;
 
 public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
@@ -447,9 +447,9 @@ public:
 	}
 
 	GeneralisedBuffer& operator+=(std::span<const char> added) {
-		int position = 0;
-		while (position < int(added.size())) {
-			int toCopy = std::min<int>(added.size() - position, remainingSpace());
+		int64_t position = 0;
+		while (position < std::ssize(added)) {
+			int64_t toCopy = std::min<int64_t>(added.size() - position, remainingSpace());
 			memcpy(_buffer.data(), added.data() + position, toCopy);
 			_buffer = BufferType(_buffer.begin() + toCopy, _buffer.end());
 			_size += toCopy;
@@ -469,7 +469,7 @@ public:
 		return operator+=(std::span<const char>(added, strlen(added)));
 	}
 
-	int size() {
+	int64_t size() {
 		return _size;
 	}
 
@@ -482,7 +482,7 @@ protected:
 		_buffer = newBuffer;
 		_size = 0;
 	}
-	int remainingSpace() const {
+	int64_t remainingSpace() const {
 		return _buffer.size();
 	}
 };
@@ -491,7 +491,7 @@ template <int StaticSize = 1024>
 class StreamingBuffer : public GeneralisedBuffer {
 protected:
 	std::array<char, StaticSize> _basic;
-	int _sizeAtLastFlush = 0;
+	int64_t _sizeAtLastFlush = 0;
 
 	bool bufferFull() override {
 		flush();
-- 
2.43.0


From c8aa859211c208bb2c08e2af517fd03165bdcd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 44/60] fix: reading an object from form data left the position
 past the end

---
 bomba_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 481dd4a..d4c899b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -391,7 +391,7 @@ struct HtmlMessageEncoding {
 					fail("Type doesn't support nested object");
 			_objectStarted = true;
 			int index = 0;
-			for (; _position < std::ssize(_contents); _position++) {
+			while (_position < std::ssize(_contents)) {
 				if (_contents[_position] == '&')
 					_position++;
 				int start = _position;
@@ -404,6 +404,8 @@ struct HtmlMessageEncoding {
 				if (!onEach(_demangled, index))
 					break;
 				index++;
+				if (_position < std::ssize(_contents))
+					_position++;
 			}
 			_objectStarted = false;
 		}
-- 
2.43.0


From 66f6b6a42af7e43e13a75ac88a36f79535705e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 45/60] fix: a TCP session was accessed after another thread
 could have destroyed it

---
 bomba_tcp_server.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index fae84ce..6dc2996 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -174,17 +174,14 @@ class TcpServer {
 					expectingMore = _buffer.receive(*this, error, length);
 				} catch (...) {} // An error in one session must not end the others
 
-				if (expectingMore) {
-					readSome();
-				}
 				auto endTime = std::chrono::steady_clock::now();
 				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
 
-				if (!expectingMore) {
+				if (expectingMore) {
+					readSome(); // Must be last, another thread can process the next message and destroy this
+				} else {
 					cancel();
-					return;
 				}
-
 			});
 		}
 
-- 
2.43.0


From c2054e6a767f9dd703cac9bf9e9d5ff1418bbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 46/60] fix: response statistics of the TCP server were a data
 race and divided by zero before the first response

---
 bomba_tcp_server.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 6dc2996..ceaf9c4 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -6,6 +6,7 @@
 #endif
 
 #include <experimental/net>
+#include <atomic>
 #include <vector>
 #include <chrono>
 
@@ -147,8 +148,8 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
-	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
-	int64_t _totalResponses = 0;
+	std::atomic<std::chrono::nanoseconds::rep> _totalResponseTime = 0; // Sessions update it from any thread
+	std::atomic<int64_t> _totalResponses = 0;
 
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
@@ -175,7 +176,7 @@ class TcpServer {
 				} catch (...) {} // An error in one session must not end the others
 
 				auto endTime = std::chrono::steady_clock::now();
-				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
+				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime).count();
 
 				if (expectingMore) {
 					readSome(); // Must be last, another thread can process the next message and destroy this
@@ -268,7 +269,10 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		int64_t totalResponses = _totalResponses;
+		if (totalResponses == 0)
+			return std::chrono::nanoseconds(0);
+		return std::chrono::nanoseconds(_totalResponseTime / totalResponses);
 	}
 };
 
-- 
2.43.0


From da238478bac3e2ce90a72dcdbc3d55426834eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 47/60] fix: one failed accept made the TCP server refuse all
 further connections

---
 bomba_tcp_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index ceaf9c4..1a98cff 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -225,6 +225,8 @@ class TcpServer {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
 			if (error) {
 //				std::cout << "Error: " << error.message() << std::endl;
+				if (error != std::errc::operation_canceled)
+					startSession(); // Connection aborted too early, too many connections...
 				return;
 			}
 			{
-- 
2.43.0


From 0eec73bfa7a946421642ffa1ccc4a824ea7bdb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 48/60] fix: JSON-RPC responses could have both a result and an
 error or neither, and repeated params called the method again

---
 bomba_json_rpc.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 1ef7a67..3c4f2ed 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -38,7 +38,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		bool failed = false;
 		bool responding = false;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		bool answered = false; // The response must have one result or one error
 
 		auto startResponse = [&] {
 			responding = true;
@@ -73,9 +73,10 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
 			failed = true;
-			if (!responding)
+			if (!responding || answered)
 				return;
 
+			answered = true;
 			output.introduceObjectMember(noFlags, "error", 2);
 			auto errorWritten = output.writeObject(2);
 			errorWritten.writeInt("code",  int(errorType));
@@ -87,8 +88,10 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			bool called = false;
 			auto call = [&] () {
 				auto introduceResult = [&] () {
-					if (responding)
+					if (responding) {
+						answered = true;
 						output.introduceObjectMember(noFlags, "result", 2);
+					}
 				};
 				auto formerPosition = input.storePosition(noFlags);
 				if (method) [[likely]] {
@@ -102,6 +105,9 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 						NullStructredOutput nullOutput;
 						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 					}
+					if (responding && !answered) [[unlikely]] { // It's not a method but has some
+						introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
+					}
 				}
 				return formerPosition;
 			};
@@ -138,6 +144,10 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					} else
 						input.skipObjectElement(noFlags);
 				} else if (*nextName == "params") {
+					if (called) [[unlikely]] {
+						input.skipObjectElement(noFlags);
+						return !failed;
+					}
 					paramsPosition = input.storePosition(noFlags);
 					if (method && responding) {
 						call();
-- 
2.43.0


From 3d690bfc3ed340aa39f8a15daf101f1c48044e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:21 +0000
Subject: [PATCH 49/60] fix: the last element of arrays in the binary format
 was not deserialised

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index cac199f..3db1d2a 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -68,6 +68,7 @@ struct BinaryFormat {
 		std::span<const char> _contents;
 		int _position = 0;
 		std::array<int, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Where the first element is, until the array is iterated
 		int _depth = -1;
 
 		template <typename T>
@@ -135,9 +136,12 @@ struct BinaryFormat {
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_depth++;
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_starts[_depth] != _position) // Nothing is behind if called before the first element
+				_sizes[_depth]--;
+			_starts[_depth] = -1;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From fd34df238717b020f01e4466465bfa9e2b792f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 50/60] fix: HTTP client read a wrong body if the header
 arrived in pieces

---
 bomba_http.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d4c899b..9993002 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -884,6 +884,7 @@ class HttpClient : public IRpcResponder {
 					done = true;
 				}
 				if (reaction != ServerReaction::OK) {
+					state = ParseState{}; // The header will be read again when the rest of it comes
 					return {reaction, RequestToken{}, position};
 				}
 			}
-- 
2.43.0


From 6b0123db10739ccb53bcf89ebf0ae614d66b689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 51/60] fix: streaming buffer lost data written after a flush

---
 bomba_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index a42e410..5990119 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -513,6 +513,7 @@ struct NonOwningStreamingBuffer : StreamingBuffer<StaticSize> {
 		if (this->size() > this->_sizeAtLastFlush) {
 			writer({this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush)});
 			this->_sizeAtLastFlush = this->size();
+			this->moveBuffer({this->_basic.data(), StaticSize}); // Otherwise the next flush would not start where writing continues
 		}
 	}
 	NonOwningStreamingBuffer(Callback<void(std::span<const char>)> writer) : writer(writer) {}
-- 
2.43.0


From b58d8b2e4a22903881fa6bc6c9a462c5196230a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:57 +0000
Subject: [PATCH 52/60] fix: separators longer than one character were left in
 names of methods

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5990119..80844a2 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -831,10 +831,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			auto next = path.end();
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
-						end += i;
+						next = end + i + 1;
 						goto foundSeparator;
 					}
 				}
@@ -845,8 +846,7 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			start = next;
 		}
 		return current;
 	}
-- 
2.43.0


From 337589c95818dab76eb5425137da8683626df7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 53/60] fix: calling a method of an object that is not a client
 failed instead of calling its function

---
 bomba_core.hpp       |  9 ++++++---
 bomba_rpc_object.hpp | 16 ++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 80844a2..a2e010e 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -770,10 +770,13 @@ protected:
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
-	IRpcResponder* getResponder() const {
+	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
 		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
+			const_cast<IRpcResponder*&>(_responder) = _parent->findResponder(); // Lazy loading
+		return _responder;
+	}
+	IRpcResponder* getResponder() const {
+		if (!findResponder()) [[unlikely]]
 			logicError("Calling a remote procedure while not being a client");
 		return _responder;
 	}
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index a6b2b84..24e6aed 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -327,14 +327,14 @@ public:
 	Future() = default;
 
 	void get() const {
-		if (_done)
+		if (_done || !Base::_responder) // If it was called locally, it's done already
 			return;
 		Base::_reader->readResponse(Base::_responder, Base::_token);
 		_done = true;
 	}
 
 	bool is_ready() const {
-		if (_done)
+		if (_done || !Base::_responder)
 			return true;
 		return Base::_responder->hasResponse(Base::_token);
 	}
@@ -576,7 +576,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<Args>(args)...));
 			} else {
@@ -584,7 +584,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Returned operator()(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...));
 			} else {
@@ -593,7 +593,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -602,7 +602,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Future<Returned> async(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -620,7 +620,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder));
 			} else {
@@ -629,7 +629,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder);
 				return Future<Returned>(this, responder, token);
-- 
2.43.0


From 1184321a016600962dc82af4cb225002bcfa7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:46 +0000
Subject: [PATCH 54/60] fix: a Future whose response was an error waited for
 another response when destroyed

---
 bomba_rpc_object.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 24e6aed..70c1fef 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -277,10 +277,11 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable bool _asked = false; // A response that was an error must not be waited for again
 	using Base = Detail::FutureBase<Returned>;
 
 	void cleanup() {
-		if (Base::_responder && !_value) {
+		if (Base::_responder && !_asked) {
 			try {
 				get();
 			} catch (...) {} // There is nobody to handle the error of a call whose result is not used
@@ -288,6 +289,7 @@ class Future : Detail::FutureBase<Returned> {
 		Base::_reader = nullptr;
 		Base::_responder = nullptr;
 		_value = std::nullopt;
+		_asked = false;
 	}
 public:
 	using Base::FutureBase;
@@ -298,12 +300,15 @@ public:
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_asked, other._asked);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
+		if (!_value) {
+			_asked = true;
 			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+		}
 		return *_value;
 	}
 
-- 
2.43.0


From 8f1689e3e2c2b185a043d4126908a3ba60fa27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 55/60] fix: a dynamic object could not be stored in
 RpcLambdaHolder

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 89bcf9d..f912560 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -63,7 +63,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From 91371be679676eae37831c6eede6e0062297c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:28 +0000
Subject: [PATCH 56/60] fix: types of nested members and of elements were
 missing in descriptions

---
 bomba_object.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 9bb7c66..00e7dac 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,11 +54,15 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
+	if constexpr(requires { TypedSerialiser<T>::listTypes(filler); }) {
+		static thread_local bool isListed = false; // The type can contain itself through a pointer or a container
+		if (isListed)
+			return;
+		isListed = true;
+		struct Ending { // Also if the filler throws
+			~Ending() { isListed = false; }
+		} ending;
+		TypedSerialiser<T>::listTypes(filler); // Lists also the types of its members or elements
 	}
 }
 
-- 
2.43.0


From ecf7ef804e2f7225f6896502d1f3249b75ec281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 57/60] fix: arguments that are arrays of optional values were
 described as optional

---
 bomba_json_wsp_description.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 98fc1e3..4c6a20b 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -119,6 +119,12 @@ public:
 		_optional = true;
 		filler(*this);
 	}
+
+	void addArray(Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		bool optional = _optional; // Elements can be optional, but that doesn't make the argument optional
+		JsonWspTypicalDescriptions::addArray(filler);
+		_optional = optional;
+	}
 };
 
 class JsonWspReturnDescription : public Detail::JsonWspTypicalDescriptions {
-- 
2.43.0


From 9f74abdc477dddb9f3a606a0eda6a20cd4fd0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:56 +0000
Subject: [PATCH 58/60] fix: lengths of responses over 99999999999 bytes were
 announced as zero

---
 bomba_http.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 9993002..798f4ac 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -716,8 +716,8 @@ public:
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, sizeof(unsetSize) + 10> sizeBuffer; // Any number has to fit
+							memcpy(sizeBuffer.data(), unsetSize, sizeof(unsetSize));
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
-- 
2.43.0


From 92b81978288021c4cc27d2deccb543c5f01148a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:07 +0000
Subject: [PATCH 59/60] fix: a response was waited for though it had already
 come, if processing an earlier one failed

---
 bomba_sync_client.hpp   | 28 ++++++++++++++++------------
 tls/tls_sync_client.hpp | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 1c27023..c479c14 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -45,18 +45,8 @@ class SyncNetworkClient : public ITcpClient {
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
 		bool wasReceived = false;
-		while (!wasReceived) {
-			std::error_code error;
-			if constexpr(!doWait) {
-				if (_socket.available() == 0)
-					break;
-			}
-			auto received = _socket.read_some(Net::buffer(responseBuffer), error);
-			if (error) {
-				remoteError(error.message().c_str());
-				break;
-			}
-			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
+		while (true) {
+			// Something may be left here if an exception was thrown while processing an earlier response
 			while (!_leftovers.empty()) {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
 				if (reaction == ServerReaction::OK)
@@ -70,6 +60,20 @@ class SyncNetworkClient : public ITcpClient {
 				}
 				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
 			}
+			if (wasReceived)
+				break;
+
+			std::error_code error;
+			if constexpr(!doWait) {
+				if (_socket.available() == 0)
+					break;
+			}
+			auto received = _socket.read_some(Net::buffer(responseBuffer), error);
+			if (error) {
+				remoteError(error.message().c_str());
+				break;
+			}
+			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
 
diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 650ed9e..5edd6f5 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -51,18 +51,8 @@ class TlsSyncClient : public ITcpClient {
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
 		bool wasReceived = false;
-		while (!wasReceived) {
-			std::error_code error;
-			if constexpr(!doWait) {
-				if (_socket.next_layer().available() == 0)
-					break;
-			}
-			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
-			if (error) {
-				remoteError(error.message().c_str());
-				break;
-			}
-			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
+		while (true) {
+			// Something may be left here if an exception was thrown while processing an earlier response
 			while (!_leftovers.empty()) {
 				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
 				if (reaction == ServerReaction::OK)
@@ -76,6 +66,20 @@ class TlsSyncClient : public ITcpClient {
 				}
 				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
 			}
+			if (wasReceived)
+				break;
+
+			std::error_code error;
+			if constexpr(!doWait) {
+				if (_socket.next_layer().available() == 0)
+					break;
+			}
+			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
+			if (error) {
+				remoteError(error.message().c_str());
+				break;
+			}
+			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
 
-- 
2.43.0


From 5209926346e1ec134c598cf3cc1a7033ab582c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 60/60] fix: a response was waited for in an endless loop after
 the server closed the connection

---
 bomba_sync_client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index c479c14..0982fc1 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -73,6 +73,10 @@ class SyncNetworkClient : public ITcpClient {
 				remoteError(error.message().c_str());
 				break;
 			}
+			if (received == 0) {
+				remoteError("The connection was closed");
+				break;
+			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
-- 
2.43.0

