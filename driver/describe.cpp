// Descriptions of remote interfaces: one entry for each method, under the path that finds it, with its arguments and result
#include <memory>
#include "text.hpp"
#include "blob.hpp"
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json_wsp_description.hpp"
using namespace Bomba;
#include "objects.hpp"
namespace Flag = SerialisationFlags;
extern "C" {
int sa_exact_strings = 1;
int ghost_type;     // of the first parameter
int ghost_returned; // type of the result
int ghost_params;   // number of parameters
int ghost_doc;      // whether there is a description
int ghost_second;   // type of the second parameter
int ghost_shape;    // which methods are there
int ghost_types;    // number of types
}
static const char* formed = "C25 a description is well formed";
struct Recorder : IStructuredOutput { // the description in a short form
	LongText text;
	int depth = 0;
	int next[8];     // index of the next element
	int declared[8]; // number of elements, or negative
	char kind[8];    // of what is open
	bool wanted = true; // whether a value has to come
	void value() {
		sa_check(wanted, formed);
		wanted = false;
	}
	void open(char what, int size) {
		value();
		sa_check(depth < 8, formed);
		next[depth] = 0;
		declared[depth] = size;
		kind[depth] = what;
		depth++;
		text += what;
	}
	void close(char what, char closing) {
		sa_check(depth > 0 && kind[depth - 1] == what && !wanted, formed);
		depth--;
		sa_check(declared[depth] == UNKNOWN_SIZE || declared[depth] == next[depth], "C25 the announced number of elements is written");
		text += closing;
	}
	void introduce(char what, int index) {
		sa_check(depth > 0 && kind[depth - 1] == what && !wanted && next[depth - 1] == index, formed);
		next[depth - 1]++;
		wanted = true;
	}
	void writeInt(Flags, int64_t number) override {
		value();
		text += char('0' + number);
	}
	void writeFloat(Flags, double) override { sa_check(false, formed); }
	void writeString(Flags, std::string_view string) override {
		value();
		text += '"';
		text += string;
		text += '"';
	}
	void writeBool(Flags, bool truth) override {
		value();
		text += truth ? '+' : '-';
	}
	void writeNull(Flags) override {
		value();
		text += '0';
	}
	void startWritingArray(Flags, int size) override { open('[', size); }
	void introduceArrayElement(Flags, int index) override { introduce('[', index); }
	void endWritingArray(Flags) override { close('[', ']'); }
	void startWritingObject(Flags, int size) override { open('{', size); }
	void introduceObjectMember(Flags, std::string_view name, int index) override {
		introduce('{', index);
		if (name == "doc_lines") text += 'D';
		else if (name == "params") text += 'P';
		else if (name == "def_order") text += '#';
		else if (name == "type") text += 'T';
		else if (name == "optional") text += '?';
		else if (name == "ret_info") text += 'R';
		else text += name;
		text += ':';
	}
	void endWritingObject(Flags) override { close('{', '}'); }
	void writeOptional(Flags, bool, Callback<>) override { sa_check(false, formed); }
};
enum Type { INTEGER, FLOAT, BOOLEAN, STRING, NAMED, UNNAMED, OPTIONAL, ARRAY, OPTIONAL_ARRAY, ARRAYS, ARRAY_OF_OPTIONAL, TYPES, NO_RESULT = TYPES };
static void describeType(IPropertyDescriptionFiller& filler, int type) {
	auto number = [] (IPropertyDescriptionFiller& inside) { inside.addInteger(); };
	auto string = [] (IPropertyDescriptionFiller& inside) { inside.addString(); };
	auto array = [&] (IPropertyDescriptionFiller& inside) { inside.addArray(string); };
	auto optional = [&] (IPropertyDescriptionFiller& inside) { inside.addOptional(number); };
	auto nothing = [] (IPropertyDescriptionFiller& inside) {};
	switch (type) {
		case INTEGER: return filler.addInteger();
		case FLOAT: return filler.addFloat();
		case BOOLEAN: return filler.addBoolean();
		case STRING: return filler.addString();
		case NAMED: return filler.addSubobject(std::string_view("Sub"), nothing);
		case UNNAMED: return filler.addSubobject(std::nullopt, nothing);
		case OPTIONAL: return filler.addOptional(number);
		case ARRAY: return filler.addArray(number);
		case OPTIONAL_ARRAY: return filler.addOptional(array);
		case ARRAYS: return filler.addArray(array);
		case ARRAY_OF_OPTIONAL: return filler.addArray(optional);
	}
}
static const char* typeText(int type) {
	switch (type) {
		case INTEGER: case FLOAT: case OPTIONAL: return "\"number\"";
		case BOOLEAN: return "\"boolean\"";
		case STRING: return "\"string\"";
		case NAMED: return "\"Sub\"";
		case UNNAMED: return "\"object\"";
		case ARRAY: case ARRAY_OF_OPTIONAL: return "[\"number\"]";
		case OPTIONAL_ARRAY: return "[\"string\"]";
		case ARRAYS: return "[[\"string\"]]";
	}
	return "0";
}
static void docText(LongText& to, bool has) { to += has ? "D:[\"doc\"]" : "D:[]"; }
static void paramText(LongText& to, const char* name, int order, int type, bool doc) {
	to += name;
	to += ":{#:";
	to += char('0' + order);
	docText(to, doc);
	to += "T:";
	to += typeText(type);
	to += "?:";
	to += type == OPTIONAL || type == OPTIONAL_ARRAY ? "+}" : "-}";
}
static void methodText(LongText& to, const char* name, int params, int returned, bool doc) {
	to += name;
	to += ":{";
	docText(to, doc);
	to += "P:{";
	if (params >= 1) paramText(to, "a", 1, ghost_type, doc);
	if (params >= 2) paramText(to, "b", 2, ghost_second, false);
	to += "}R:{";
	docText(to, doc && returned != NO_RESULT);
	to += "T:";
	to += typeText(returned);
	to += "}}";
}
static void method(IRemoteCallableDescriptionFiller& filler, const char* name, int params, int returned, bool doc) {
	auto param = [&] (IPropertyDescriptionFiller& inside) {
		auto first = [&] { describeType(inside, ghost_type); };
		auto second = [&] { describeType(inside, ghost_second); };
		if (params >= 1) inside.addMember("a", doc ? "doc" : "", first);
		if (params >= 2) inside.addMember("b", "", second);
	};
	auto result = [&] (IPropertyDescriptionFiller& inside) {
		auto type = [&] { describeType(inside, returned); };
		if (returned != NO_RESULT) inside.addMember("result", doc ? "doc" : "", type);
	};
	filler.addMethod(name, doc ? "doc" : "", param, result);
}
static const char* entries = "C25 a description has an entry for each method with its arguments and result";
extern "C" void scn_describe_method() {
	ghost_params = sa_enum(0, 2);
	ghost_type = ghost_params ? sa_enum(0, TYPES - 1) : INTEGER;
	ghost_second = ghost_params == 2 && sa_enum(0, 1) ? OPTIONAL : INTEGER;
	ghost_doc = sa_enum(0, 1);
	ghost_returned = ghost_params == 2 && ghost_type != OPTIONAL ? STRING : sa_enum(0, NO_RESULT);
	Recorder recorder;
	IStructuredOutput& output = recorder;
	LongText expected;
	{
		auto object = output.writeObject();
		JsonWspDescription<Text> filler(object);
		method(filler, "m", ghost_params, ghost_returned, ghost_doc);
		method(filler, "n", 0, NO_RESULT, false);
	}
	expected += '{';
	methodText(expected, "m", ghost_params, ghost_returned, ghost_doc);
	methodText(expected, "n", 0, NO_RESULT, false);
	expected += '}';
	sa_check(recorder.depth == 0 && std::string_view(recorder.text) == std::string_view(expected), entries);
	sa_reach("described");
}
extern "C" void scn_describe_tree() {
	ghost_shape = sa_enum(0, 15);
	Recorder recorder;
	IStructuredOutput& output = recorder;
	LongText expected;
	{
		auto object = output.writeObject();
		JsonWspDescription<Text> filler(object);
		auto deep = [&] (IRemoteCallableDescriptionFiller& inside) { method(inside, "d", 0, STRING, false); };
		auto nested = [&] (IRemoteCallableDescriptionFiller& inside) {
			if (ghost_shape & 2) inside.addSubobject("h", deep);
			if (ghost_shape & 4) method(inside, "c", 0, INTEGER, false);
		};
		if (ghost_shape & 1) method(filler, "m", 0, BOOLEAN, false);
		filler.addSubobject("g", nested);
		if (ghost_shape & 8) method(filler, "n", 0, ARRAY, false);
	}
	expected += '{';
	if (ghost_shape & 1) methodText(expected, "m", 0, BOOLEAN, false);
	if (ghost_shape & 2) methodText(expected, "g.h.d", 0, STRING, false);
	if (ghost_shape & 4) methodText(expected, "g.c", 0, INTEGER, false);
	if (ghost_shape & 8) methodText(expected, "n", 0, ARRAY, false);
	expected += '}';
	sa_check(recorder.depth == 0 && std::string_view(recorder.text) == std::string_view(expected), entries);
	sa_reach("described");
}
extern "C" void scn_describe_types() {
	ghost_types = sa_enum(0, 2);
	ghost_type = sa_enum(0, TYPES - 1);
	Recorder recorder;
	IStructuredOutput& output = recorder;
	{
		auto object = output.writeObject();
		JsonWspTypeDescription filler(object);
		auto second = [&] (ISerialisableDescriptionFiller& inside) {
			auto members = [&] (IPropertyDescriptionFiller& inside) {
				auto type = [&] { describeType(inside, ghost_type); };
				auto more = [&] { describeType(inside, INTEGER); };
				inside.addMember("x", "", type);
				inside.addMember("y", "", more);
			};
			inside.fillMembers("Sub", members);
		};
		auto members = [&] (IPropertyDescriptionFiller& inside) {
			auto type = [&] { describeType(inside, NAMED); };
			inside.addMember("z", "", type);
		};
		if (ghost_types == 2) filler.addMoreTypes(second);
		if (ghost_types >= 1) filler.fillMembers("Main", members);
	}
	LongText expected;
	expected += '{';
	if (ghost_types == 2) {
		expected += "Sub:{x:";
		expected += typeText(ghost_type);
		expected += "y:\"number\"}";
	}
	if (ghost_types >= 1) expected += "Main:{z:\"Sub\"}";
	expected += '}';
	sa_check(recorder.depth == 0 && std::string_view(recorder.text) == std::string_view(expected), "C25 a description has an entry for each type with its members");
	sa_reach("described");
}
struct Sum { int operator()(int a = name("a"), std::optional<int> b = name("b")) const { return 0; } };
struct Nothing { void operator()() const {} };
template <typename T>
static void describeArgument(IPropertyDescriptionFiller& filler, std::string_view name) {
	auto type = [&] { TypedSerialiser<T>::describeType(filler); };
	filler.addMember(name, "", type);
}
static void noSubtypes(ISerialisableDescriptionFiller&) {}
extern "C" void scn_describe_objects() {
	static Detail::RpcArgumentInfo infos[2];
	infos[0].name = "a";
	infos[0].argumentAdder = describeArgument<int>;
	infos[1].name = "b";
	infos[1].argumentAdder = describeArgument<std::optional<int>>;
	infos[0].subtypesAdder = infos[1].subtypesAdder = noSubtypes;
	RpcLambda<Sum>::argumentInfo = infos;
	ghost_shape = sa_enum(0, 7);
	ghost_type = INTEGER;
	ghost_second = OPTIONAL;
	DynamicRpcObject outer;
	if (ghost_shape & 1) outer.add("first", Sum());
	if (ghost_shape & 2) {
		DynamicRpcObject inner;
		inner.add("one", Nothing());
		inner.add("two", Sum());
		outer.add("inner", std::move(inner));
	}
	if (ghost_shape & 4) outer.add("last", Nothing());
	Recorder recorder;
	IStructuredOutput& output = recorder;
	{
		auto object = output.writeObject();
		JsonWspDescription<Text> filler(object);
		const IRemoteCallable& callable = outer;
		callable.generateDescription(filler);
	}
	LongText expected;
	expected += '{';
	if (ghost_shape & 1) methodText(expected, "first", 2, INTEGER, false);
	if (ghost_shape & 2) {
		methodText(expected, "inner.one", 0, NO_RESULT, false);
		methodText(expected, "inner.two", 2, INTEGER, false);
	}
	if (ghost_shape & 4) methodText(expected, "last", 0, NO_RESULT, false);
	expected += '}';
	sa_check(recorder.depth == 0 && std::string_view(recorder.text) == std::string_view(expected), entries);
	if (ghost_shape & 2) {
		sa_check(PathWithSeparator<".", Text>::findCallable("inner.two", &outer), "C25 the described names find their methods");
		sa_check(PathWithSeparator<".", Text>::findCallable("inner.one", &outer), "C25 the described names find their methods");
	}
	sa_reach("described");
}
struct Inner;
struct Middle;
struct Element;
struct Outer;
SA_MEMBER(Inner, int32_t, "x");
SA_MEMBER(Middle, Inner, "inner");
SA_MEMBER(Element, bool, "y");
SA_MEMBER(Outer, Middle, "middle");
SA_MEMBER(Outer, List<Element>, "all");
struct Inner : Serialisable<Inner> { int32_t x = key<"x">; };
struct Middle : Serialisable<Middle> { Inner inner = key<"inner">; };
struct Element : Serialisable<Element> { bool y = key<"y">; };
struct Outer : Serialisable<Outer> {
	Middle middle = key<"middle">;
	List<Element> all = key<"all">;
};
struct OuterPair {
	Name first;
	Outer second;
};
struct OuterMap : List<OuterPair> { // like std::map
	using key_type = Name;
	using mapped_type = Outer;
	OuterPair* find(const Name& name) { return end(); }
	Outer& operator[](const Name& name) { return items[0].second; }
};
extern "C" void scn_describe_members() {
	prepareObject<Inner>();
	prepareObject<Middle>();
	prepareObject<Element>();
	prepareObject<Outer>();
	ghost_type = sa_enum(0, 6);
	ghost_types = sa_enum(1, 2);
	Recorder recorders[2];
	for (int i = 0; i < ghost_types; i++) { // A repeated listing is not shorter
		Recorder& recorder = recorders[i];
		IStructuredOutput& output = recorder;
		auto object = output.writeObject();
		JsonWspTypeDescription filler(object);
		if (ghost_type == 0) TypedSerialiser<Outer>::listTypes(filler);
		else if (ghost_type == 1) TypedSerialiser<std::optional<Outer>>::listTypes(filler);
		else if (ghost_type == 2) TypedSerialiser<List<Outer>>::listTypes(filler);
		else if (ghost_type == 3) TypedSerialiser<std::array<Outer, 2>>::listTypes(filler);
		else if (ghost_type == 4) TypedSerialiser<OuterMap>::listTypes(filler);
		else if (ghost_type == 5) TypedSerialiser<std::unique_ptr<Outer>>::listTypes(filler);
		else TypedSerialiser<std::optional<List<std::optional<Outer>>>>::listTypes(filler);
	}
	Recorder& recorder = recorders[ghost_types - 1];
	std::string_view text = recorder.text;
	static const char* used = "C25 each type that is used is described with its members";
	sa_check(recorder.depth == 0, formed);
	sa_check(text.find("Outer:{middle:\"Middle\"all:[\"Element\"]}") != std::string_view::npos, used);
	sa_check(text.find("Middle:{inner:\"Inner\"}") != std::string_view::npos, used);
	sa_check(text.find("Inner:{x:\"number\"}") != std::string_view::npos, used);
	sa_check(text.find("Element:{y:\"boolean\"}") != std::string_view::npos, used);
	sa_reach("described");
}
struct GiveMiddle { Middle operator()() const { return {}; } };
struct GiveMany { List<Middle> operator()(bool a = name("a")) const { return {}; } };
struct TakeElement { int operator()(int a = name("a"), std::optional<Element> b = name("b")) const { return 0; } };
template <typename T>
static void describeSubtypes(ISerialisableDescriptionFiller& filler) { TypedSerialiser<T>::listTypes(filler); }
template <typename T>
static Detail::RpcArgumentInfo argument(const char* name) {
	Detail::RpcArgumentInfo made;
	made.name = name;
	made.argumentAdder = describeArgument<T>;
	made.subtypesAdder = describeSubtypes<T>;
	return made;
}
extern "C" void scn_describe_used() {
	prepareObject<Inner>();
	prepareObject<Middle>();
	prepareObject<Element>();
	static Detail::RpcArgumentInfo many[1], take[2];
	many[0] = argument<bool>("a");
	take[0] = argument<int>("a");
	take[1] = argument<std::optional<Element>>("b");
	RpcLambda<GiveMany>::argumentInfo = many;
	RpcLambda<TakeElement>::argumentInfo = take;
	ghost_shape = sa_enum(1, 7);
	ghost_type = sa_enum(0, 1);
	DynamicRpcObject object;
	if (ghost_type) {
		DynamicRpcObject inner;
		if (ghost_shape & 1) inner.add("one", GiveMiddle());
		if (ghost_shape & 2) inner.add("two", GiveMany());
		if (ghost_shape & 4) inner.add("three", TakeElement());
		object.add("inner", std::move(inner));
	} else {
		if (ghost_shape & 1) object.add("one", GiveMiddle());
		if (ghost_shape & 2) object.add("two", GiveMany());
		if (ghost_shape & 4) object.add("three", TakeElement());
	}
	Recorder recorder;
	IStructuredOutput& output = recorder;
	{
		auto made = output.writeObject();
		JsonWspTypeDescription filler(made);
		const IRemoteCallable& callable = object;
		callable.listTypes(filler);
	}
	std::string_view text = recorder.text;
	static const char* used = "C25 each type that is used by a method is described";
	sa_check(recorder.depth == 0, formed);
	bool middle = ghost_shape & 3, element = ghost_shape & 4;
	sa_check((text.find("Middle:{inner:\"Inner\"}") != std::string_view::npos) == middle, used);
	sa_check((text.find("Inner:{x:\"number\"}") != std::string_view::npos) == middle, used);
	sa_check((text.find("Element:{y:\"boolean\"}") != std::string_view::npos) == element, used);
	sa_reach("described");
}
struct One : IRemoteCallable {
	void generateDescription(IRemoteCallableDescriptionFiller& filler) const override {
		if (ghost_shape) method(filler, "m", 0, NO_RESULT, false);
	}
	void listTypes(ISerialisableDescriptionFiller& filler) const override {
		auto members = [&] (IPropertyDescriptionFiller& inside) {
			auto type = [&] { describeType(inside, INTEGER); };
			inside.addMember("z", "", type);
		};
		if (ghost_types) filler.fillMembers("M", members);
	}
};
extern "C" void scn_describe_text() {
	ghost_shape = sa_enum(0, 1);
	ghost_types = sa_enum(0, 1);
	One callable;
	LongText written = describeInJsonWsp<LongText, Text>(callable, "u/r", "n");
	LongText got;
	for (int i = 0; i < written.size; i++) {
		char c = written.data[i];
		if (c != ' ' && c != '\n' && c != '\t' && c != '\r') got += c;
	}
	LongText expected;
	expected += "{\"type\":\"jsonwsp/description\",\"version\":\"1.0\",\"servicename\":\"n\",\"url\":\"u/r\",\"types\":{";
	if (ghost_types) expected += "\"M\":{\"z\":\"number\"}";
	expected += "},\"methods\":{";
	if (ghost_shape) expected += "\"m\":{\"doc_lines\":[],\"params\":{},\"ret_info\":{\"doc_lines\":[],\"type\":null}}";
	expected += "}}";
	sa_check(std::string_view(got) == std::string_view(expected), "C25 a description contains the service, its types and its methods");
	sa_reach("described");
}
