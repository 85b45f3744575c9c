#include "anyinput.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;
extern "C" void scn_binary_read() {
	SA::Arbitrary text;
	BinaryFormat<>::Input in(text);
	readAnything(in);
}
extern "C" void scn_binary_read_nested() {
	SA::Arbitrary text;
	BinaryFormat<>::Input in(text);
	readAnything(in); // any position
	IStructuredInput::Location place = in.storePosition(anyFlags());
	int inside = 0;
	callAnything<true>(in, place, inside);
	callAnything<false>(in, place, inside);
}
