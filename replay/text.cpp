// Calls one text helper or version operation with concrete arguments and prints the outcome.
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <Parsers/LineParser.h>
#include <Parsers/Tokenizer.h>
#include <SemVer/Version.h>
#include <Tools/Files.h>
#include <Tools/Strings.h>

using namespace Utils::Tools;

static std::string unhex(const std::string& h)
{
	std::string r;
	if ( h == "-" ) return r;
	for ( size_t i = 0; i + 1 < h.size(); i += 2 ) r += static_cast<char>( std::stoi( h.substr( i, 2 ), nullptr, 16 ) );
	return r;
}

static std::string hex(const std::string& s)
{
	if ( s.empty() ) return "-";
	static const char* d = "0123456789abcdef";
	std::string r;
	for ( unsigned char c : s ) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}

static std::string run(const std::string& f, const std::vector<std::string>& a)
{
	std::stringstream out;
	if ( f == "trimLeft" ) return hex( stringTrimLeft( a[0], a[1] ) );
	if ( f == "trimRight" ) return hex( stringTrimRight( a[0], a[1] ) );
	if ( f == "trim" ) return hex( stringTrim( a[0], a[1] ) );
	if ( f == "split" ) { std::string p = "x", c = "y"; split( a[0], p, c ); return hex( p ) + " " + hex( c ); }
	if ( f == "splitBy" ) { std::string p = "x", c = "y"; splitBy( a[0], a[1][0], p, c ); return hex( p ) + " " + hex( c ); }
	if ( f == "splitInPlace" ) { std::string p = "x", c = a[0]; splitBy( c, a[1][0], p, c ); return hex( p ) + " " + hex( c ); }
	if ( f == "extract" ) return hex( extract( a[0] ) );
	if ( f == "lower" ) return hex( toLowerCase( a[0] ) );
	if ( f == "same" ) return StringCompare( a[0], a[1] ) ? "1" : "0";
	if ( f == "sameNoCase" ) return StringCompareI( a[0], a[1] ) ? "1" : "0";
	if ( f == "truth" ) return stringToBool( a[0] ) ? "1" : "0";
	if ( f == "int" ) { out << stringToInt( a[0] ); return out.str(); }
	if ( f == "indent" ) return hex( indent( static_cast<unsigned int>( std::stoul( a[0] ) ) ) );
	if ( f == "ext" ) return hex( Files::ExtractFileExt( a[0] ) );
	if ( f == "file" ) return hex( Files::ExtractFilename( a[0] ) );
	if ( f == "path" ) return hex( Files::ExtractPathname( a[0] ) );
	if ( f == "noext" ) return hex( Files::RemoveFileExt( a[0] ) );
	if ( f == "words" ) {
		Utils::Tokenizer t( a[0], a[1] );
		while ( t.hasNext() ) out << hex( t.getToken() ) << " ";
		return out.str() + ".";
	}
	if ( f == "line" ) { auto v = Utils::LineParser::parse( a[0] ); return hex( v.getName() ) + " " + hex( v.getType() ) + " " + hex( v.getValue() ); }
	if ( f == "ver" ) {
		SemanticVersionNumber x( a[0] ), y( a[1] );
		out << ( x < y ) << ( y < x ) << ( x == y ) << ( x != y ) << " " << ( x < a[1] ) << ( x == a[1] ) << ( x != a[1] );
		return out.str();
	}
	if ( f == "verprint" ) { SemanticVersionNumber x( a[0] ); return hex( x.toString() ) + ( x.isValid() ? " 1" : " 0" ); }
	if ( f == "verassign" ) { SemanticVersionNumber x( a[0] ); x = a[1]; return hex( x.toString() ) + ( x.isValid() ? " 1" : " 0" ); }
	return "?";
}

int main()
{
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		std::stringstream s( line );
		std::string f, w;
		std::vector<std::string> a;
		s >> f;
		while ( s >> w ) a.push_back( unhex( w ) );
		std::cout << run( f, a ) << std::endl;
	}
	return 0;
}
