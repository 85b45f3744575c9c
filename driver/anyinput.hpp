// The most general user of a structured input: any sequence of calls, nested in any way
#pragma once
#include "sa.hpp"
#include "bomba_core.hpp"
using Bomba::IStructuredInput;
static void touch(std::string_view s) { // the user may look at all it is given
	if (!s.empty()) { volatile char c = s[sa_int(0, s.size() - 1)]; (void)c; }
}
static IStructuredInput::Flags anyFlags() {
	return IStructuredInput::Flags(sa_int(0, (1l << 31) - 1));
}
template <bool nested>
static void callAnything(IStructuredInput& in, IStructuredInput::Location& place, int& inside);
// any sequence of calls
template <bool nested = false>
static void readAnything(IStructuredInput& in) {
	IStructuredInput::Location place = in.storePosition(anyFlags());
	int inside = 0; // nested arrays
	while (sa_bool()) callAnything<nested>(in, place, inside);
	sa_reach("read");
}
template <bool nested>
static void callAnything(IStructuredInput& in, IStructuredInput::Location& place, int& inside) {
	switch (sa_enum(0, nested ? 13 : 11)) {
		case 0: in.identifyType(anyFlags()); break;
		case 1: in.readInt(anyFlags()); break;
		case 2: in.readFloat(anyFlags()); break;
		case 3: touch(in.readString(anyFlags())); break;
		case 4: in.readBool(anyFlags()); break;
		case 5: in.readNull(anyFlags()); break;
		case 6: in.startReadingArray(anyFlags()); inside++; break;
		case 7: if (inside > 0) in.nextArrayElement(anyFlags()); break;
		case 8: if (inside > 0) { in.endReadingArray(anyFlags()); inside--; } break;
		case 9: in.skipObjectElement(anyFlags()); break;
		case 10: in.restorePosition(anyFlags(), place); break;
		case 11: place = in.storePosition(anyFlags()); break;
		case 12:
			in.readObject(anyFlags(), [&] (std::optional<std::string_view> name, int index) {
				if (name.has_value()) touch(*name);
				int inner = inside;
				IStructuredInput::Location here = in.storePosition(anyFlags());
				callAnything<false>(in, here, inner);
				return sa_bool();
			});
			break;
		case 13:
			in.readOptional(anyFlags(), [&] {
				int inner = inside;
				IStructuredInput::Location here = in.storePosition(anyFlags());
				callAnything<false>(in, here, inner);
			});
			break;
	}
}
