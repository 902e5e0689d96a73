// Enters and leaves n calls and prints what the stack trace and the frames say.
#include <iostream>
#include <sstream>
#include <string>
#include <Core/Scope.h>
#include <Core/VirtualMachine/StackFrame.h>
#include <Core/VirtualMachine/Threads.h>

using namespace Slang;

int main()
{
	std::string op;
	int n;
	while ( std::cin >> op >> n ) {
		Thread t( 0 );
		SymbolScope s( nullptr );
		for ( int i = 0; i < n; ++i ) t.pushFrame( &s, TokenList(), ParameterList() );
		std::stringstream trace( t.stackTrace() );
		std::string line;
		int numbered = 0, frames = (int) t.getNumFrames(), mine = 0, back = 0;
		while ( std::getline( trace, line ) && line.find( "Frame " + std::to_string( numbered ) + ":" ) != std::string::npos ) ++numbered;
		for ( int i = 0; i < n; ++i ) {
			StackFrame* top = n < 1000 || i == 0 ? t.frame( t.getNumFrames() - 1 ) : t.currentFrame();
			if ( top == t.currentFrame() && top->getScope() == &s ) ++mine;
			t.popFrame();
			if ( (int) t.getNumFrames() == n - i - 1 ) ++back;
		}
		std::cout << numbered << " " << frames << " " << mine << " " << back << std::endl;
	}
}
