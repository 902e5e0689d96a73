// Reads one source text per line ('$' stands for a line break) and prints its tokens: kind:text:line
#include <iostream>
#include <string>
#include <Core/Common/Token.h>
#include <Core/Designtime/Parser/Tokenizer.h>

using namespace Slang;

static std::string kind(Token::Type::E t)
{
	switch ( t ) {
#define X(k) case Token::Type::k: return #k;
		X(ACCESS_MODE)
		X(AND)
		X(ARRAY_SUBSCRIPT)
		X(ASSIGN)
		X(ASSIGN_ADDITION)
		X(ASSIGN_BITAND)
		X(ASSIGN_BITCOMPLEMENT)
		X(ASSIGN_BITOR)
		X(ASSIGN_DIVIDE)
		X(ASSIGN_MODULO)
		X(ASSIGN_MULTIPLY)
		X(ASSIGN_SUBTRACT)
		X(BRACKET_CLOSE)
		X(BRACKET_CURLY_CLOSE)
		X(BRACKET_CURLY_OPEN)
		X(BRACKET_OPEN)
		X(BITAND)
		X(BITCOMPLEMENT)
		X(BITOR)
		X(CASE)
		X(COLON)
		X(COMMA)
		X(COMPARE_EQUAL)
		X(COMPARE_EQUAL_CONTENT)
		X(COMPARE_LESS)
		X(COMPARE_LESS_EQUAL)
		X(COMPARE_GREATER)
		X(COMPARE_GREATER_EQUAL)
		X(COMPARE_UNEQUAL)
		X(COMPARE_UNEQUAL_CONTENT)
		X(CONST_BOOLEAN)
		X(CONST_DOUBLE)
		X(CONST_FLOAT)
		X(CONST_INTEGER)
		X(CONST_LITERAL)
		X(CONST_NULL)
		X(ENDOFFILE)
		X(GREATER)
		X(IDENTIFIER)
		X(KEYWORD)
		X(LANGUAGE_FEATURE_STATE)
		X(LESS)
		X(MATH_ADDITION)
		X(MATH_DIVIDE)
		X(MATH_MODULO)
		X(MATH_MULTIPLY)
		X(MATH_SUBTRACT)
		X(MEMORY_LAYOUT)
		X(MODIFIER)
		X(MUTABILITY)
		X(NAND)
		X(NIL)
		X(NOR)
		X(OPERATOR_DECREMENT)
		X(OPERATOR_INCREMENT)
		X(OPERATOR_IS)
		X(OPERATOR_NOT)
		X(OPERATOR_RANGE)
		X(OPERATOR_SCOPE)
		X(OPERATOR_SHIFT_LEFT)
		X(OPERATOR_SHIFT_RIGHT)
		X(OPERATOR_VALIDATE)
		X(OR)
		X(PARENTHESIS_CLOSE)
		X(PARENTHESIS_OPEN)
		X(QUESTION_MARK)
		X(QUOTATION_DOUBLE)
		X(RESERVED_WORD)
		X(SEMICOLON)
		X(TILDE)
		X(TYPECAST)
		X(UNKNOWN)
		X(VISIBILITY)
		X(WHITESPACE)
	}
	return "?";
}

int main()
{
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		for ( auto& c : line ) if ( c == '$' ) c = '\n';
		Tokenizer t( "file", line );
		std::string out;
		try {
			t.process();
			for ( const auto& k : t.tokens() ) {
				if ( k.type() == Token::Type::ENDOFFILE ) continue;
				std::string text = k.content();
				for ( auto& c : text ) if ( c == '\n' ) c = '$';
				out += kind( k.type() ) + ":" + text + ":" + std::to_string( k.position().mLine ) + " ";
			}
		}
		catch ( ... ) {
			out += "exception";
		}
		std::cout << out << std::endl;
	}
}
