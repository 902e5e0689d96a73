// Runs one line of debugger operations and prints what they answer.
#include <iostream>
#include <sstream>
#include <string>
#include <Core/Object.h>
#include <Core/Common/Token.h>
#include <Core/Runtime/BuildInTypes/Int32Type.h>
#include <Debugger/BreakPoint.h>
#include <Debugger/Condition.h>
#include <Debugger/Debugger.h>
#include <Debugger/IReceiver.h>

using namespace Slang;
using namespace Slang::Core;

struct Recv : IReceiver {
	std::string log;
	void add(const char* k, const BreakPoint& b) { log += std::string( k ) + "(" + b.getFilename() + ":" + std::to_string( b.getLine() ) + ( b.getCondition().isValid() ? "?" : "" ) + ")"; }
	int notify(IScope*, const BreakPoint& b) override { add( "stop", b ); return 0; }
	int notifyEnter(IScope*, const BreakPoint& b) override { add( "enter", b ); return 0; }
	int notifyExceptionCatch(IScope*, const BreakPoint& b) override { add( "catch", b ); return 0; }
	int notifyExceptionThrow(IScope*, const BreakPoint& b) override { add( "throw", b ); return 0; }
	int notifyExit(IScope*, const BreakPoint& b) override { add( "exit", b ); return 0; }
};

int main()
{
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		std::stringstream in( line );
		std::string op, out;
		in >> op;
		if ( op == "cond" ) {
			std::string o; int a, b;
			in >> o >> a >> b;
			Runtime::Int32Type l( a ), r( b );
			Condition c( "a", o, "b" );
			out = std::to_string( c.evaluate( &l, &r ) ) + std::to_string( c.isValid() ) + std::to_string( c.evaluate( nullptr, &r ) );
		}
		else if ( op == "eq" ) {
			std::string f, g; unsigned a, b;
			in >> f >> a >> g >> b;
			BreakPoint x( Common::Position( f, a, 1 ) ), y( Common::Position( g, b, 2 ) );
			y.setCondition( Condition( "a", "==", "b" ) );
			out = std::to_string( x == y ) + std::to_string( x == Common::Position( g, b, 7 ) ) + std::to_string( x < y ) + std::to_string( y < x );
		}
		else if ( op == "dbg" ) {
			Debugger& d = Debugger::Instance();
			Recv r;
			d.clearBreakPoints(); d.breakOnExceptionCatch( false ); d.breakOnExceptionThrow( false ); d.resume();
			d.registerReceiver( &r );
			std::string c, f; unsigned l;
			while ( in >> c >> f >> l ) {
				BreakPoint b( Common::Position( f, l, 0 ) );
				Token t( Token::Category::None, Token::Type::IDENTIFIER, "x", Common::Position( f, l, 3 ) );
				if ( c == "add" ) r.log += d.addBreakPoint( b ) ? "+" : "-";
				else if ( c == "cadd" ) { b.setCondition( Condition( "a", "==", "b" ) ); r.log += d.addBreakPoint( b ) ? "+" : "-"; }
				else if ( c == "rm" ) r.log += d.removeBreakPoint( b ) ? "+" : "-";
				else if ( c == "has" ) r.log += d.isBreakPoint( b ) ? "1" : "0";
				else if ( c == "clear" ) d.clearBreakPoints();
				else if ( c == "go" ) d.notify( nullptr, t );
				else if ( c == "enter" ) d.notifyEnter( nullptr, t );
				else if ( c == "exit" ) d.notifyExit( nullptr, t );
				else if ( c == "throw" ) d.notifyExceptionThrow( nullptr, t );
				else if ( c == "catch" ) d.notifyExceptionCatch( nullptr, t );
				else if ( c == "resume" ) d.resume();
				else if ( c == "free" ) d.resumeWithoutBreaks();
				else if ( c == "into" ) d.stepInto();
				else if ( c == "out" ) d.stepOut();
				else if ( c == "over" ) d.stepOver();
				else if ( c == "onthrow" ) d.breakOnExceptionThrow( l );
				else if ( c == "oncatch" ) d.breakOnExceptionCatch( l );
				else if ( c == "unreg" ) { Recv o; r.log += d.registerReceiver( &o ) ? "!" : "."; r.log += d.unregisterReceiver( &o ) ? "!" : "."; r.log += d.unregisterReceiver( &r ) ? "+" : "-"; r.log += d.registerReceiver( &r ) ? "+" : "-"; }
			}
			d.unregisterReceiver( &r );
			out = r.log;
		}
		std::cout << out << std::endl;
	}
	return 0;
}
