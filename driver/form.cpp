#include "anyinput.hpp"
#include "bomba_http.hpp"
using namespace Bomba;
extern "C" void scn_form_read() {
	SA::Arbitrary text;
	HtmlMessageEncoding<>::Input in(text);
	readAnything(in);
}
extern "C" void scn_form_read_nested() {
	SA::Arbitrary text;
	HtmlMessageEncoding<>::Input in(text);
	readAnything(in); // any position
	IStructuredInput::Location place = in.storePosition(anyFlags());
	int inside = 0;
	callAnything<true>(in, place, inside);
	callAnything<false>(in, place, inside);
}
