// Applies one operator of the runtime to concrete operands and prints the outcome.
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <Core/Object.h>
#include <Core/Runtime/BuildInTypes/BoolType.h>
#include <Core/Runtime/BuildInTypes/DoubleType.h>
#include <Core/Runtime/BuildInTypes/EnumerationType.h>
#include <Core/Runtime/BuildInTypes/FloatType.h>
#include <Core/Runtime/BuildInTypes/Int16Type.h>
#include <Core/Runtime/BuildInTypes/Int32Type.h>
#include <Core/Runtime/BuildInTypes/Int64Type.h>
#include <Core/Runtime/BuildInTypes/StringType.h>
#include <Core/Runtime/OperatorOverloading.h>
#include <Core/Runtime/TypeCast.h>
#include <Core/Common/Exceptions.h>

using namespace Slang;
using namespace Slang::Runtime;

static std::string unhex(const std::string& h)
{
	std::string r;
	if ( h == "-" ) return r;
	for ( size_t i = 0; i + 1 < h.size(); i += 2 ) r += static_cast<char>( std::stoi( h.substr( i, 2 ), nullptr, 16 ) );
	return r;
}

static std::string hex(const std::string& s)
{
	if ( s.empty() ) return "-";
	static const char* d = "0123456789abcdef";
	std::string r;
	for ( unsigned char c : s ) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

static Object* make(const std::string& t, const std::string& v)
{
	if ( t == "string" ) return new StringType( unhex( v ) );
	uint64_t b = std::stoull( v );
	if ( t == "bool" ) return new BoolType( b != 0 );
	if ( t == "int16" ) return new Int16Type( static_cast<int16_t>( b ) );
	if ( t == "int" ) return new Int32Type( static_cast<int32_t>( b ) );
	if ( t == "int64" ) return new Int64Type( static_cast<int64_t>( b ) );
	if ( t == "enum" ) return new EnumerationType( "e", "Color", AtomicValue( static_cast<int64_t>( b ) ) );
	if ( t == "float" ) { uint32_t x = static_cast<uint32_t>( b ); float f; memcpy( &f, &x, 4 ); return new FloatType( f ); }
	double d; memcpy( &d, &b, 8 ); return new DoubleType( d );
}

static void show(Object* o)
{
	AtomicValue v = o->getValue();
	std::string t = o->QualifiedTypename();
	uint64_t b = 0;
	if ( v.type() == AtomicValue::Type::STRING ) { std::cout << "string " << hex( v.toStdString() ) << std::endl; return; }
	if ( v.type() == AtomicValue::Type::FLOAT ) { float f = v.toFloat(); uint32_t x; memcpy( &x, &f, 4 ); b = f != f ? 0x7fc00000u : x; }
	else if ( v.type() == AtomicValue::Type::DOUBLE ) { double d = v.toDouble(); memcpy( &b, &d, 8 ); if ( d != d ) b = 0x7ff8000000000000ull; }
	else {
		b = static_cast<uint64_t>( v.toInt() );
		int64_t s = v.toInt();
		if ( t == "int16" && s == static_cast<int16_t>( s ) ) b &= 0xffffu;
		if ( t == "int" && s == static_cast<int32_t>( s ) ) b &= 0xffffffffu;
	}
	std::cout << "value " << t << " " << b << std::endl;
}

static Object* from(const std::string& t, const AtomicValue& v)
{
	if ( t == "bool" ) return new BoolType( v );
	if ( t == "int16" ) return new Int16Type( v );
	if ( t == "int" ) return new Int32Type( v );
	if ( t == "int64" ) return new Int64Type( v );
	if ( t == "float" ) return new FloatType( v );
	if ( t == "double" ) return new DoubleType( v );
	return new StringType( v );
}

static void read(const std::string& t, const AtomicValue& v)
{
	uint64_t b = 0;
	if ( t == "string" ) { std::cout << "string " << hex( v.toStdString() ) << std::endl; return; }
	if ( t == "bool" ) b = v.toBool();
	else if ( t == "int64" ) b = static_cast<uint64_t>( v.toInt() );
	else if ( t == "float" ) { float f = v.toFloat(); uint32_t x; memcpy( &x, &f, 4 ); b = x; }
	else { double d = v.toDouble(); memcpy( &b, &d, 8 ); }
	std::cout << "stored " << t << " " << b << std::endl;
}

int main()
{
	typedef void (*B)(Object*, Object*);
	typedef bool (*C)(Object*, Object*);
	typedef void (*U)(Object*);
	std::map<std::string, B> bin{ {"plus", operator_binary_plus}, {"subtract", operator_binary_subtract}, {"multiply", operator_binary_multiply}, {"bitand", operator_binary_bitand}, {"bitor", operator_binary_bitor}, {"shift_left", operator_binary_shift_left},
		{"divide", operator_binary_divide}, {"modulo", operator_binary_modulo}, {"assign", operator_binary_assign} };
	std::map<std::string, C> cmp{ {"less", operator_binary_less}, {"less_equal", operator_binary_less_equal}, {"greater", operator_binary_greater},
		{"greater_equal", operator_binary_greater_equal}, {"equal", operator_binary_equal} };
	std::map<std::string, U> un{ {"minus", operator_unary_minus}, {"increment", operator_unary_increment}, {"decrement", operator_unary_decrement}, {"plus", operator_unary_plus} };
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		std::istringstream in( line );
		std::string kind, op, t, v, t2, v2;
		in >> kind >> op >> t >> v;
		try {
			if ( kind == "opassign" ) {
				// op: target type, t: its value, v: source type
				in >> v2;
				Object* a = make( op, t );
				a->operator_assign( make( v, v2 ) );
				show( a );
				continue;
			}
			if ( kind == "cast" || kind == "make" || kind == "read" ) {
				Object* a = make( t, v );
				if ( kind == "cast" ) { typecast( a, op ); show( a ); }
				else if ( kind == "make" ) show( from( op, a->getValue() ) );
				else read( op, a->getValue() );
				continue;
			}
			Object* a = make( t, v );
			if ( kind == "unary" ) { un.at( op )( a ); show( a ); continue; }
			in >> t2 >> v2;
			Object* b = make( t2, v2 );
			if ( bin.count( op ) ) { bin.at( op )( a, b ); show( a ); }
			else std::cout << "bool " << cmp.at( op )( a, b ) << std::endl;
		}
		catch ( Common::Exceptions::Exception& ) { std::cout << "error" << std::endl; }
		catch ( std::exception& e ) { std::cout << "exception " << e.what() << std::endl; }
	}
}
