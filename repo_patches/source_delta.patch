From 431ee74c3ad0fe0b2f517d7ec8a94a5ef8e2da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:52 +0000
Subject: [PATCH 01/34] fix: raise a runtime error on integer division by zero

Dividing or taking the remainder of an int16, int or int64 by zero killed the
interpreter with SIGFPE. The same happened for the smallest value divided by -1.

Division by zero now raises InvalidOperation. The quotient of the smallest
value and -1 wraps around like the other integer operations do.
---
 .../Core/Runtime/BuildInTypes/Int16Type.cpp     | 14 ++++++++++++--
 .../Core/Runtime/BuildInTypes/Int32Type.cpp     | 16 ++++++++++++++--
 .../Core/Runtime/BuildInTypes/Int64Type.cpp     | 17 +++++++++++++++--
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..4d78c55 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,12 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +270,12 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..f2d4ae6 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,7 +150,13 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// the quotient of the smallest value and -1 is not representable
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) / divisor );
 		return;
 	}
 
@@ -265,7 +271,13 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		// the quotient of the smallest value and -1 is not representable
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..fb01b4b 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -3,6 +3,7 @@
 #include "Int64Type.h"
 
 // Library includes
+#include <cstdint>
 
 // Project includes
 #include <Core/Consts.h>
@@ -150,7 +151,13 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// the quotient of the smallest value and -1 is not representable
+		mValue = divisor == -1 ? static_cast<int64_t>( 0ull - static_cast<uint64_t>( mValue.toInt() ) ) : static_cast<int64_t>( static_cast<int64_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +272,13 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		// the quotient of the smallest value and -1 is not representable
+		mValue = divisor == -1 ? static_cast<int64_t>( 0 ) : static_cast<int64_t>( static_cast<int64_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
-- 
2.43.0


From 4a4fdf6fd6028278e01508f3427490862a407ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:59 +0000
Subject: [PATCH 02/34] fix: keep int16 results within 16 bits

C++ promotes int16_t operands to int, so 32767 + 1 was stored as 32768 in an
int16 variable. The result of +, -, *, ++, -- and unary minus is now narrowed
to int16_t before it is stored.
---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 4d78c55..e506495 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -295,7 +295,7 @@ void Int16Type::operator_multiply( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -315,7 +315,7 @@ void Int16Type::operator_plus( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -335,7 +335,7 @@ void Int16Type::operator_subtract( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -344,17 +344,17 @@ void Int16Type::operator_subtract( const Object* other )
 
 void Int16Type::operator_unary_decrement()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) - 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - 1 );
 }
 
 void Int16Type::operator_unary_increment()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) + 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + 1 );
 }
 
 void Int16Type::operator_unary_minus()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) * -1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * -1 );
 }
 
 void Int16Type::operator_unary_not()
-- 
2.43.0


From c7fb62ba5f5f984c64297b87984ca11ac88fd783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 03/34] fix: remove the loop scope and stop on every way out of
 a for loop

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 30 +++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..529cc08 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -43,6 +43,16 @@
 			return; \
 		}
 
+#define tryControlPopScope( exp ) \
+		try { \
+			exp; \
+		} \
+		catch ( Runtime::ControlFlow::E &e ) { \
+			popScope(); \
+			mControlFlow = e; \
+			return; \
+		}
+
 #define tryControlReturnNull( exp ) \
 		try { \
 			exp; \
@@ -1024,9 +1034,9 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	visit(node->mInitialization);
 
 	Runtime::Object condition;
-	for  ( ; ; ) {
+	while ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		if ( node->mCondition ) {
-			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
+			tryControlPopScope(evaluate(node->mCondition, &condition));		// evaluate loop condition
 
 			// validate loop condition
 			if ( !isTrue(condition) ) {
@@ -1038,13 +1048,15 @@ void TreeInterpreter::visitFor(ForStatement* node)
 		visit(node->mStatement);
 
 		// check (and reset) control flow
-		switch ( mControlFlow ) {
-			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
-			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
-			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
-			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
+		if ( mControlFlow == Runtime::ControlFlow::Break ) {
+			mControlFlow = Runtime::ControlFlow::Normal;
+			break;
+		}
+		if ( mControlFlow == Runtime::ControlFlow::Continue ) {
+			mControlFlow = Runtime::ControlFlow::Normal;
+		}
+		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+			break;		// exit, return and throw leave the loop
 		}
 
 		// execute arbitrary iteration node type
-- 
2.43.0


From 2933d5fbb119ec9465d1ec0b4dbc959f69337402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 04/34] fix: unwind scopes and frames when a nested call exits
 the program

---
 Projects/Core/Core/AST/TreeInterpreter.cpp    |   2 +-
 .../Core/VirtualMachine/VirtualMachine.cpp    | 995 +++++++++---------
 2 files changed, 500 insertions(+), 497 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 529cc08..afed487 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1016,7 +1016,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..c00356b 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -1,496 +1,499 @@
-
-// Header
-#include "VirtualMachine.h"
-
-// Library includes
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-#include <dirent.h>
-#endif
-#include <fstream>
-#include <vector>
-
-// Project includes
-#include <Core/AST/TreeGenerator.h>
-#include <Core/Common/Exceptions.h>
-#include <Core/Defines.h>
-#include <Core/Designtime/Analyser.h>
-#include <Core/Runtime/Script.h>
-#include <Logger/Logger.h>
-#include <Tools/Files.h>
-#include <Tools/Strings.h>
-#include <Utils.h>
-#include "Controller.h"
-
-// Namespace declarations
-
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename );
-
-}
-
-namespace Slang {
-
-
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-void read_directory(const std::string& dirname, std::vector<std::string>& files)
-{
-	DIR* dirp = opendir(dirname.c_str());
-	if ( !dirp ) {
-		// couldn't opern directory
-		return;
-	}
-
-	dirent* dp;
-
-	while ( (dp = readdir(dirp)) != nullptr ) {
-		std::string file(dp->d_name);
-
-		if ( file != "." && file != ".." ) {
-			files.push_back(dirname + "/" + file);
-		}
-	}
-
-	closedir(dirp);
-}
-#endif
-
-
-VirtualMachine::VirtualMachine()
-: mIsInitialized(false)
-{
-	Controller::Instance().init();
-}
-
-VirtualMachine::~VirtualMachine()
-{
-	for ( auto& script : mScripts ) {
-		delete script;
-	}
-	mScripts.clear();
-
-	Controller::Instance().deinit();
-
-	for ( const auto& extension : mExtensions ) {
-		delete extension;
-	}
-	mExtensions.clear();
-}
-
-bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
-{
-	if ( !extension ) {
-		// provided an invalid extension - ignore it...
-		OSerror( "invalid extension '" + library + "' detected!" );
-
-		return false;
-	}
-
-	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
-
-	try {
-		OSdebug( "adding extension '" + extension->getName() + "'" );
-
-		auto* globalScope = Controller::Instance().globalScope();
-		Extensions::ExtensionMethods methods;
-
-		extension->initialize( globalScope );
-		extension->provideMethods( methods );
-
-		if ( !mSpecification.empty() ) {
-			mSpecification.push_back( "" );
-		}
-		mSpecification.push_back( "Extension " + extension->getName() + ":" );
-		mSpecification.push_back( "---" );
-
-		for ( auto& method : methods ) {
-			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
-
-			method->setParent( globalScope );
-
-			globalScope->defineMethod( method->getName(), method );
-
-			mSpecification.push_back( method->ToString() );
-		}
-	}
-	catch ( std::exception &e ) {
-		OSerror( "error while loading extension: " + std::string( e.what() ) );
-	}
-
-	mExtensions.push_back( extension );
-
-	return true;
-}
-
-void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
-{
-	if ( libraryFolder .empty() ) {
-		return;
-	}
-
-#ifdef _MSC_VER
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
-#else
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
-#endif
-
-	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
-		mLibraryFolders.insert( folder );
-	}
-}
-
-Script* VirtualMachine::createScript(const std::string& content)
-{
-	if ( !mIsInitialized ) {
-		init();
-	}
-
-	auto* script = new Script();
-
-	mScripts.insert( script );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processString( content, mScriptFile );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
-		}
-	}
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : mLibraryFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
-		}
-	}
-
-	auto* globalScope = Controller::Instance().globalScope();
-
-	Controller::Instance().repository()->initializeBlueprints();
-
-	Controller::Instance().phase(Controller::Phase::Generation);
-
-	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
-	generator.process(globalScope);
-
-	auto errors = generator.hasErrors();
-	if ( errors ) {
-		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
-	}
-
-#ifdef USE_AST_OPTIMIZATION
-
-	Controller::Instance().phase(Controller::Phase::Optimization);
-
-	AST::TreeOptimizer optimizer;
-	optimizer.process(globalScope);
-
-#endif
-
-	return script;
-}
-
-Script* VirtualMachine::createScriptFromFile(const std::string& filename)
-{
-	OSdebug("processing script '" + filename + "'...");
-
-	if ( filename.empty() ) {
-		OSerror("invalid filename '" + filename + "' provided!");
-		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
-	}
-	if ( !Utils::Tools::Files::exists(filename) ) {
-		OSerror("file '" + filename + "' not found!");
-		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
-	}
-
-	// open file
-	std::ifstream in(filename.c_str(), std::ios_base::binary);
-
-	// read file content
-	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
-
-	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
-	mScriptFile = Utils::Tools::Files::GetFullname(filename);
-
-	return createScript(content);
-}
-
-Script* VirtualMachine::createScriptFromString(const std::string& content)
-{
-	OSdebug("processing string...");
-
-	mScriptFile = "";
-
-	return createScript(content);
-}
-
-void VirtualMachine::init()
-{
-	OSdebug( "initializing virtual machine..." );
-
-	auto* homepath = getenv( SLANG_LIBRARY );
-	if ( homepath ) {
-		std::string path( homepath );
-
-		while ( !path.empty() ) {
-			std::string left;
-			std::string right;
-
-			Utils::Tools::splitBy( path, ':', left, right );
-			addLibraryFolder( left );
-
-			path = right;
-		}
-	}
-
-	if ( !mSettings.DoSkipExtensions ) {
-#ifdef _WIN32
-		// Extension loading is not supported under Windows
-#else
-		OSdebug( "loading extensions..." );
-
-		std::vector<std::string> sharedLibraries;
-		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
-
-		// load installed shared libraries
-		for ( const std::string& library : sharedLibraries ) {
-			addExtension( mExtensionManager.load( library ), library );
-		}
-#endif
-	}
-
-	mIsInitialized = true;
-}
-
-bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
-{
-	auto library = folder + extension;
-
-#if defined __APPLE__
-	library += ".dylib";
-#elif defined __linux
-	library += ".so";
-#endif
-
-#if defined _MSC_VER
-	OSerror("Extension loading is not support under your OS!");
-
-	return false;
-#else
-	OSdebug( "Loading extension '" + library + "'" );
-
-	return addExtension( mExtensionManager.load( library ), library );
-#endif
-}
-
-bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
-{
-	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
-
-	if ( !Utils::Tools::Files::exists( library ) ) {
-		// provided library file doesn't exist!
-		return false;
-	}
-
-	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
-		OSdebug( "Ignoring already imported file '" + library + "'" );
-		return true;
-	}
-
-	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
-	addLibraryFolder( currentFolder );
-
-	mImportedLibraries.insert( library );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processFile( library );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, currentFolder ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
-		}
-	}
-
-	auto librariesFolders = mLibraryFolders;
-	librariesFolders.insert( librariesFolders.begin(), currentFolder );
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-
-	// (1) first try to resolve relative to the current file
-	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
-		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
-			libIt = libraryImports.erase( libIt );
-		}
-		else {
-			++libIt;
-		}
-	}
-
-	// (2) then try to resolve via the library folders
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : librariesFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
-		}
-	}
-
-	return true;
-}
-
-void VirtualMachine::printExtensions()
-{
-	std::cout << std::endl;
-	std::cout << "Extensions:" << std::endl;
-
-	for ( const auto& extension : mExtensions ) {
-		std::cout << extension->getName();
-
-		if ( !extension->getVersion().empty() ) {
-			std::cout << " version " << extension->getVersion();
-		}
-
-		std::cout << std::endl;
-	}
-
-	std::cout << std::endl;
-}
-
-void VirtualMachine::printLibraryFolders()
-{
-	std::cout << "Libraries:" << std::endl;
-
-	for ( const auto& libraryFolder : mLibraryFolders ) {
-		std::cout << libraryFolder << std::endl;
-	}
-}
-
-void VirtualMachine::printSpecification( const std::string& specification )
-{
-	if ( specification.empty() ) {
-		for ( const auto& str : mSpecification ) {
-			std::cout << str << std::endl;
-		}
-
-		return;
-	}
-
-	int32_t found{ 0 };
-	for ( const auto& str : mSpecification ) {
-		if ( str.find( specification ) != std::string::npos ) {
-            std::cout << str << std::endl;
-
-            found++;
-		}
-	}
-
-	if ( found ) {
-		//std::cout << std::endl;
-		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
-	}
-	else {
-		std::cout << "no result found for '" << specification << "'" << std::endl;
-	}
-}
-
-void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
-{
-	if ( !script ) {
-		throw Common::Exceptions::Exception("provided invalid script to run!");
-	}
-
-	Controller::Instance().phase(Controller::Phase::Execution);
-
-	MethodScope* globalScope = Controller::Instance().globalScope();
-
-	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
-	if ( !main ) {
-		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
-	}
-
-	auto* thread = Controller::Instance().threads()->createThread();
-
-	auto controlflow = thread->execute(nullptr, main, params, result);
-	if ( controlflow == Runtime::ControlFlow::Throw ) {
-		throw Runtime::ControlFlow::Throw;
-	}
-}
-
-void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromFile(filename);
-
-	run(script, params, result);
-}
-
-void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromString(content);
-
-	run(script, params, result);
-}
-
-VirtualMachine::Settings& VirtualMachine::settings()
-{
-	return mSettings;
-}
-
-
-}
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename ) {
-		auto path = Utils::Tools::Files::BuildPath( folder, filename );
-
-		// (1) look for a ".slang" file (new standard)
-		auto file = path + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (2) look for a ".os" file (deprecated)
-		file = path + ".os";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (3) look for an "All.slang" file (new standard)
-		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (4) look for an "All.os" file as a last resort (deprecated)
-		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
-	}
-
-}
+
+// Header
+#include "VirtualMachine.h"
+
+// Library includes
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+#include <dirent.h>
+#endif
+#include <fstream>
+#include <vector>
+
+// Project includes
+#include <Core/AST/TreeGenerator.h>
+#include <Core/Common/Exceptions.h>
+#include <Core/Defines.h>
+#include <Core/Designtime/Analyser.h>
+#include <Core/Runtime/Script.h>
+#include <Logger/Logger.h>
+#include <Tools/Files.h>
+#include <Tools/Strings.h>
+#include <Utils.h>
+#include "Controller.h"
+
+// Namespace declarations
+
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename );
+
+}
+
+namespace Slang {
+
+
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+void read_directory(const std::string& dirname, std::vector<std::string>& files)
+{
+	DIR* dirp = opendir(dirname.c_str());
+	if ( !dirp ) {
+		// couldn't opern directory
+		return;
+	}
+
+	dirent* dp;
+
+	while ( (dp = readdir(dirp)) != nullptr ) {
+		std::string file(dp->d_name);
+
+		if ( file != "." && file != ".." ) {
+			files.push_back(dirname + "/" + file);
+		}
+	}
+
+	closedir(dirp);
+}
+#endif
+
+
+VirtualMachine::VirtualMachine()
+: mIsInitialized(false)
+{
+	Controller::Instance().init();
+}
+
+VirtualMachine::~VirtualMachine()
+{
+	for ( auto& script : mScripts ) {
+		delete script;
+	}
+	mScripts.clear();
+
+	Controller::Instance().deinit();
+
+	for ( const auto& extension : mExtensions ) {
+		delete extension;
+	}
+	mExtensions.clear();
+}
+
+bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
+{
+	if ( !extension ) {
+		// provided an invalid extension - ignore it...
+		OSerror( "invalid extension '" + library + "' detected!" );
+
+		return false;
+	}
+
+	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
+
+	try {
+		OSdebug( "adding extension '" + extension->getName() + "'" );
+
+		auto* globalScope = Controller::Instance().globalScope();
+		Extensions::ExtensionMethods methods;
+
+		extension->initialize( globalScope );
+		extension->provideMethods( methods );
+
+		if ( !mSpecification.empty() ) {
+			mSpecification.push_back( "" );
+		}
+		mSpecification.push_back( "Extension " + extension->getName() + ":" );
+		mSpecification.push_back( "---" );
+
+		for ( auto& method : methods ) {
+			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
+
+			method->setParent( globalScope );
+
+			globalScope->defineMethod( method->getName(), method );
+
+			mSpecification.push_back( method->ToString() );
+		}
+	}
+	catch ( std::exception &e ) {
+		OSerror( "error while loading extension: " + std::string( e.what() ) );
+	}
+
+	mExtensions.push_back( extension );
+
+	return true;
+}
+
+void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
+{
+	if ( libraryFolder .empty() ) {
+		return;
+	}
+
+#ifdef _MSC_VER
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
+#else
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
+#endif
+
+	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
+		mLibraryFolders.insert( folder );
+	}
+}
+
+Script* VirtualMachine::createScript(const std::string& content)
+{
+	if ( !mIsInitialized ) {
+		init();
+	}
+
+	auto* script = new Script();
+
+	mScripts.insert( script );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processString( content, mScriptFile );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
+		}
+	}
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : mLibraryFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
+		}
+	}
+
+	auto* globalScope = Controller::Instance().globalScope();
+
+	Controller::Instance().repository()->initializeBlueprints();
+
+	Controller::Instance().phase(Controller::Phase::Generation);
+
+	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
+	generator.process(globalScope);
+
+	auto errors = generator.hasErrors();
+	if ( errors ) {
+		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
+	}
+
+#ifdef USE_AST_OPTIMIZATION
+
+	Controller::Instance().phase(Controller::Phase::Optimization);
+
+	AST::TreeOptimizer optimizer;
+	optimizer.process(globalScope);
+
+#endif
+
+	return script;
+}
+
+Script* VirtualMachine::createScriptFromFile(const std::string& filename)
+{
+	OSdebug("processing script '" + filename + "'...");
+
+	if ( filename.empty() ) {
+		OSerror("invalid filename '" + filename + "' provided!");
+		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
+	}
+	if ( !Utils::Tools::Files::exists(filename) ) {
+		OSerror("file '" + filename + "' not found!");
+		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
+	}
+
+	// open file
+	std::ifstream in(filename.c_str(), std::ios_base::binary);
+
+	// read file content
+	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
+
+	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
+	mScriptFile = Utils::Tools::Files::GetFullname(filename);
+
+	return createScript(content);
+}
+
+Script* VirtualMachine::createScriptFromString(const std::string& content)
+{
+	OSdebug("processing string...");
+
+	mScriptFile = "";
+
+	return createScript(content);
+}
+
+void VirtualMachine::init()
+{
+	OSdebug( "initializing virtual machine..." );
+
+	auto* homepath = getenv( SLANG_LIBRARY );
+	if ( homepath ) {
+		std::string path( homepath );
+
+		while ( !path.empty() ) {
+			std::string left;
+			std::string right;
+
+			Utils::Tools::splitBy( path, ':', left, right );
+			addLibraryFolder( left );
+
+			path = right;
+		}
+	}
+
+	if ( !mSettings.DoSkipExtensions ) {
+#ifdef _WIN32
+		// Extension loading is not supported under Windows
+#else
+		OSdebug( "loading extensions..." );
+
+		std::vector<std::string> sharedLibraries;
+		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
+
+		// load installed shared libraries
+		for ( const std::string& library : sharedLibraries ) {
+			addExtension( mExtensionManager.load( library ), library );
+		}
+#endif
+	}
+
+	mIsInitialized = true;
+}
+
+bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
+{
+	auto library = folder + extension;
+
+#if defined __APPLE__
+	library += ".dylib";
+#elif defined __linux
+	library += ".so";
+#endif
+
+#if defined _MSC_VER
+	OSerror("Extension loading is not support under your OS!");
+
+	return false;
+#else
+	OSdebug( "Loading extension '" + library + "'" );
+
+	return addExtension( mExtensionManager.load( library ), library );
+#endif
+}
+
+bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
+{
+	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
+
+	if ( !Utils::Tools::Files::exists( library ) ) {
+		// provided library file doesn't exist!
+		return false;
+	}
+
+	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
+		OSdebug( "Ignoring already imported file '" + library + "'" );
+		return true;
+	}
+
+	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
+	addLibraryFolder( currentFolder );
+
+	mImportedLibraries.insert( library );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processFile( library );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, currentFolder ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
+		}
+	}
+
+	auto librariesFolders = mLibraryFolders;
+	librariesFolders.insert( librariesFolders.begin(), currentFolder );
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+
+	// (1) first try to resolve relative to the current file
+	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
+		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
+			libIt = libraryImports.erase( libIt );
+		}
+		else {
+			++libIt;
+		}
+	}
+
+	// (2) then try to resolve via the library folders
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : librariesFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
+		}
+	}
+
+	return true;
+}
+
+void VirtualMachine::printExtensions()
+{
+	std::cout << std::endl;
+	std::cout << "Extensions:" << std::endl;
+
+	for ( const auto& extension : mExtensions ) {
+		std::cout << extension->getName();
+
+		if ( !extension->getVersion().empty() ) {
+			std::cout << " version " << extension->getVersion();
+		}
+
+		std::cout << std::endl;
+	}
+
+	std::cout << std::endl;
+}
+
+void VirtualMachine::printLibraryFolders()
+{
+	std::cout << "Libraries:" << std::endl;
+
+	for ( const auto& libraryFolder : mLibraryFolders ) {
+		std::cout << libraryFolder << std::endl;
+	}
+}
+
+void VirtualMachine::printSpecification( const std::string& specification )
+{
+	if ( specification.empty() ) {
+		for ( const auto& str : mSpecification ) {
+			std::cout << str << std::endl;
+		}
+
+		return;
+	}
+
+	int32_t found{ 0 };
+	for ( const auto& str : mSpecification ) {
+		if ( str.find( specification ) != std::string::npos ) {
+            std::cout << str << std::endl;
+
+            found++;
+		}
+	}
+
+	if ( found ) {
+		//std::cout << std::endl;
+		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
+	}
+	else {
+		std::cout << "no result found for '" << specification << "'" << std::endl;
+	}
+}
+
+void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
+{
+	if ( !script ) {
+		throw Common::Exceptions::Exception("provided invalid script to run!");
+	}
+
+	Controller::Instance().phase(Controller::Phase::Execution);
+
+	MethodScope* globalScope = Controller::Instance().globalScope();
+
+	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
+	if ( !main ) {
+		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
+	}
+
+	auto* thread = Controller::Instance().threads()->createThread();
+
+	auto controlflow = thread->execute(nullptr, main, params, result);
+	if ( controlflow == Runtime::ControlFlow::Throw ) {
+		throw Runtime::ControlFlow::Throw;
+	}
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
+}
+
+void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromFile(filename);
+
+	run(script, params, result);
+}
+
+void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromString(content);
+
+	run(script, params, result);
+}
+
+VirtualMachine::Settings& VirtualMachine::settings()
+{
+	return mSettings;
+}
+
+
+}
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename ) {
+		auto path = Utils::Tools::Files::BuildPath( folder, filename );
+
+		// (1) look for a ".slang" file (new standard)
+		auto file = path + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (2) look for a ".os" file (deprecated)
+		file = path + ".os";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (3) look for an "All.slang" file (new standard)
+		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (4) look for an "All.os" file as a last resort (deprecated)
+		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
+	}
+
+}
-- 
2.43.0


From 63ad03a315128db4b4131395cd8ef83154190e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 05/34] fix: do not swallow an exception thrown inside an
 assignment expression

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index afed487..cac34d2 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -119,7 +119,7 @@ void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Ru
 
 	Runtime::Object right;
 	// evaluate right expression
-	tryControl(evaluate(exp->mRHS, &right));
+	evaluate(exp->mRHS, &right);
 
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
-- 
2.43.0


From 3073c53590fa170d1f58b9fa7a6f1b40d4bb46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 06/34] fix: promote an exception thrown by a constructor

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index cac34d2..d4da189 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -362,6 +362,12 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 
 	// execute new object's constructor
 	mControlFlow = result->Constructor(params);
+
+	switch ( mControlFlow ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: mControlFlow = Runtime::ControlFlow::Normal; break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From 3204e8b64343e85143f582fe3f0fda471c3fc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 07/34] fix: remove the object scope when a member access
 throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d4da189..9515803 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -378,7 +378,13 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	pushScope(&left);
 
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
+	try {
+		evaluate(exp->mRHS, &right);
+	}
+	catch ( Runtime::ControlFlow::E & ) {
+		popScope();
+		throw;
+	}
 
 	popScope();
 
-- 
2.43.0


From a112e74848ae578695ed4a3866ecc35aff27bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:04 +0000
Subject: [PATCH 08/34] fix: unwind the scopes of a foreach loop when its
 iterator throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9515803..bcf96dc 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1091,13 +1091,13 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 
 		pushScope(&collection);
 
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+			tryControlPopScope(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 
 		popScope();
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1109,7 +1109,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 
 		pushScope(&iterator);
 
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
+			tryControlPopScope(evaluateMethodExpression(node->mHasNextExpression, &condition));
 
 		popScope();
 
@@ -1130,7 +1130,15 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// iterate over next item
 			pushScope(&iterator);
 
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
+				try {
+					evaluateMethodExpression(node->mNextExpression, loopVariable);
+				}
+				catch ( Runtime::ControlFlow::E &e ) {
+					popScope();
+					popScope();
+					mControlFlow = e;
+					return;
+				}
 
 			popScope();
 
-- 
2.43.0


From 1d8bc657be6ca604889b1694ab1dc2b84daa304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:44 +0000
Subject: [PATCH 09/34] fix: do not pass an earlier argument's reference to a
 defaulted parameter

---
 Projects/Core/Core/Common/Method.cpp | 815 +++++++++++++--------------
 1 file changed, 407 insertions(+), 408 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..5827d45 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -1,408 +1,407 @@
-
-// Header
-#include "Method.h"
-
-// Library includes
-
-// Project includes
-#include <Core/AST/Statement.h>
-#include <Core/Common/Types.h>
-#include <Core/Designtime/Parser/Parser.h>
-#include <Core/Runtime/Exceptions.h>
-#include <Tools/Strings.h>
-
-// Namespace declarations
-
-
-namespace Slang {
-namespace Common {
-
-
-Method::Method(IScope* parent, const std::string& name, TypeDeclaration type)
-: NamedScope(name, parent),
-  MethodSymbol(name),
-  mIsExtensionMethod(false),
-  mAllowDelete(true),
-  mIsInitialized(false),
-  mReturnType(std::move(type)),
-  mRootNode(nullptr)
-{
-}
-
-Method::Method(const Method& other, bool shallowCopy)
-: NamedScope(other.mName, other.mParent),
-  MethodSymbol(other.mName),
-  mIsExtensionMethod(other.mIsExtensionMethod),
-  mAllowDelete(!shallowCopy),
-  mIsInitialized(other.mIsInitialized),
-  mReturnType(other.mReturnType),
-  mRootNode(other.mRootNode),
-  mSignature(other.mSignature)
-{
-	mAlgorithm = other.mAlgorithm;
-	mCheckedExceptions = other.mCheckedExceptions;
-	mIsSealed = other.mIsSealed;
-	mLanguageFeatureState = other.mLanguageFeatureState;
-	mMemoryLayout = other.mMemoryLayout;
-	mMethodMutability = other.mMethodMutability;
-	mMethodType = other.mMethodType;
-	mMutability = other.mMutability;
-	mScopeName = other.mScopeName;
-	mScopeType = other.mScopeType;
-	mVisibility = other.mVisibility;
-
-	if ( !shallowCopy ) {
-		mTokens = other.mTokens;
-	}
-}
-
-Method::~Method()
-{
-	if ( mAllowDelete ) {
-		delete mRootNode;
-	}
-}
-
-bool Method::operator() (const Method& first, const Method& second) const
-{
-	if ( first.getName() == second.getName() ) {
-		ParameterList firstList = first.provideSignature();
-		ParameterList secondList = second.provideSignature();
-
-		// unable to identify return value during method call
-		//if ( this->type() != other.type() ) {
-		//	return this->type() < other.type();
-		//}
-
-		if ( firstList.size() == secondList.size() ) {
-			auto fIt = firstList.begin();
-			auto sIt = secondList.begin();
-			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
-				if ( fIt->type() != sIt->type() ) {
-					return fIt->type() < sIt->type();
-				}
-			}
-		}
-
-		return firstList.size() < secondList.size();
-	}
-
-	return first.getName() < second.getName();
-}
-
-bool Method::operator< (const Method& other) const
-{
-	if ( this->getName() == other.getName() ) {
-		ParameterList firstList = this->provideSignature();
-		ParameterList secondList = other.provideSignature();
-
-		// unable to identify return value during method call
-		//if ( this->type() != other.type() ) {
-		//	return this->type() < other.type();
-		//}
-
-		if ( firstList.size() == secondList.size() ) {
-			ParameterList::const_iterator fIt = firstList.begin();
-			ParameterList::const_iterator sIt = secondList.begin();
-
-			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
-				if ( fIt->type() != sIt->type() ) {
-					return fIt->type() < sIt->type();
-				}
-			}
-		}
-
-		return firstList.size() < secondList.size();
-	}
-
-	return this->getName() < other.getName();
-}
-
-Method& Method::operator= (const Method& other)
-{
-	if ( this != &other ) {
-		mAlgorithm = other.mAlgorithm;
-		mAllowDelete = false;
-		mCheckedExceptions = other.mCheckedExceptions;
-		mIsExtensionMethod = other.mIsExtensionMethod;
-		mIsInitialized = other.mIsInitialized;
-		mIsSealed = other.mIsSealed;
-		mLanguageFeatureState = other.mLanguageFeatureState;
-		mMemoryLayout = other.mMemoryLayout;
-		mMethodMutability = other.mMethodMutability;
-		mMethodType = other.mMethodType;
-		mMutability = other.mMutability;
-		mReturnType = other.mReturnType;
-		mRootNode = other.mRootNode;
-		mScopeName = other.mScopeName;
-		mScopeType = other.mScopeType;
-		mSignature = other.mSignature;
-		mTokens = other.mTokens;
-		mVisibility = other.mVisibility;
-	}
-
-	return *this;
-}
-
-const PrototypeConstraints& Method::getPrototypeConstraints() const
-{
-	return mReturnType.mConstraints;
-}
-
-AST::Statements* Method::getRootNode() const
-{
-	return mRootNode;
-}
-
-const TokenList& Method::getTokens() const
-{
-	return mTokens;
-}
-
-void Method::initialize(const PrototypeConstraints& constraints)
-{
-	if ( mIsInitialized ) {
-		return;	// no need for doing this twice
-	}
-
-	// Prepare return type
-	// {
-	auto type = constraints.lookupType(mReturnType.mName);
-
-	if ( !mReturnType.mConstraints.empty() ) {
-		type += constraints.extractTypes(mReturnType.mConstraints);
-	}
-
-	mReturnType.mCombinedName = type;
-	mReturnType.mConstraints = PrototypeConstraints();	// reset prototype constraints
-	// }
-
-	// Update method signature
-	// {
-	auto atomicTypes = provideAtomicTypes();
-
-	for ( auto& paramIt : mSignature ) {
-		// look up parameter type in object-wide prototype constraints
-		type = constraints.lookupType(paramIt.type());
-
-		// combine parameter type with
-		if ( !paramIt.typeConstraints().empty() ) {
-			type += constraints.extractTypes(paramIt.typeConstraints());
-		}
-
-		if ( paramIt.type() != type ) {
-			AccessMode::E access = AccessMode::ByValue;
-
-			if ( atomicTypes.find(type) == atomicTypes.end() ) {
-				access = AccessMode::ByReference;
-			}
-
-			paramIt = Parameter::CreateDesigntime(paramIt.name(),
-													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
-													 paramIt.value(),
-													 paramIt.hasDefaultValue(),
-													 paramIt.mutability(),
-													 access);
-		}
-	}
-	// }
-
-	// Update method tokens
-	// {
-	for ( auto& mToken : mTokens ) {
-		if ( mToken.type() == Token::Type::IDENTIFIER ) {
-			type = constraints.lookupType(mToken.content());
-
-			if ( type != mToken.content() ) {
-				mToken.resetContentTo(type);
-			}
-		}
-	}
-	// }
-
-	mIsInitialized = true;
-}
-
-bool Method::isExtensionMethod() const
-{
-	return mIsExtensionMethod;
-}
-
-bool Method::isPrototype() const
-{
-	return !mReturnType.mConstraints.empty();
-}
-
-bool Method::isSignatureValid(const ParameterList& params) const
-{
-	// check method signature by:
-	// 1) comparing the number of parameters
-	//	  by expecting the same number of parameters or less, we can make use of default parameters
-	if ( params.size() > mSignature.size() ) {
-		// we received more parameters than we expected
-		return false;
-	}
-
-	// 2) by comparing each parameter one by one
-	auto paramIt = params.begin();
-	auto sigIt = mSignature.begin();
-
-	while ( sigIt != mSignature.end() ) {
-		if ( paramIt != params.end() ) {
-			// compare received type with expected type
-			if ( sigIt->type() != paramIt->type() && sigIt->type() != VALUE_NONE ) {
-				// we received the wrong parameter type
-				return false;
-			}
-
-/*
-			// compare received const-ness with expected const-ness
-			if ( paramIt->mutability() == sigIt->mutability() ||
-				 (paramIt->mutability() == Mutability::Modify && sigIt->mutability() == Mutability::Const) ) {
-				// we received a const parameter but expect a modifiable parameter
-				return false;
-			}
-*/
-/*
-			// compare access types
-			if ( paramIt->access() != sigIt->access() ) {
-				// received wrong access type
-				return false;
-			}
-*/
-
-			++paramIt;
-		}
-		else if ( !sigIt->hasDefaultValue() ) {
-			// we received less parameters than expected and we have no default value set
-			return false;
-		}
-
-		++sigIt;
-	}
-
-	// no differences found, nailed it!
-	return true;
-}
-
-ParameterList Method::mergeParameters(const ParameterList& params) const
-{
-	if ( !isSignatureValid(params) ) {
-		throw Exceptions::ParameterCountMismatch("incorrect number or type of parameters");
-	}
-
-	ParameterList result;
-
-	auto paramIt = params.begin();
-
-	Runtime::Reference ref;
-
-	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
-		// initialize parameter with default value
-		auto value = sigIt->value();
-
-		if ( paramIt != params.end() ) {
-			// override parameter with correct value
-			ref = paramIt->reference();
-			value = paramIt->value();
-
-			// next iteration
-			++paramIt;
-		}
-
-		result.emplace_back(
-			sigIt->name(), TypeDeclaration(sigIt->type(), PrototypeConstraints(), sigIt->mutability()), value, sigIt->hasDefaultValue(), sigIt->mutability(), sigIt->access(), ref
-		);
-	}
-
-	return result;
-}
-
-const ParameterList& Method::provideSignature() const
-{
-	return mSignature;
-}
-
-const std::string& Method::QualifiedTypename() const
-{
-	return mReturnType.mCombinedName;
-}
-
-const TypeDeclaration& Method::ReturnType() const
-{
-	return mReturnType;
-}
-
-void Method::setParent(IScope *scope)
-{
-	mParent = scope;
-}
-
-void Method::setPrototypeConstraints(const PrototypeConstraints& constraints)
-{
-	mReturnType.mConstraints = constraints;
-}
-
-void Method::setQualifiedTypename(const std::string& type)
-{
-	mReturnType.mCombinedName = type;
-	mReturnType.mName = type;
-}
-
-void Method::setRootNode(AST::Statements* node)
-{
-	mRootNode = node;
-}
-
-void Method::setSignature(const ParameterList& params)
-{
-	mSignature = params;
-}
-
-void Method::setTokens(const TokenList& tokens)
-{
-	mTokens = tokens;
-}
-
-void Method::shallowCopy(const Method& other)
-{
-	mAlgorithm = other.mAlgorithm;
-	mAllowDelete = false;
-	mCheckedExceptions = other.mCheckedExceptions;
-	mIsExtensionMethod = other.mIsExtensionMethod;
-	mIsInitialized = other.mIsInitialized;
-	mIsSealed = other.mIsSealed;
-	mLanguageFeatureState = other.mLanguageFeatureState;
-	mMemoryLayout = other.mMemoryLayout;
-	mMethodMutability = other.mMethodMutability;
-	mMethodType = other.mMethodType;
-	mMutability = other.mMutability;
-	mRootNode = other.mRootNode;
-	mScopeName = other.mScopeName;
-	mScopeType = other.mScopeType;
-	mSignature = other.mSignature;
-	mVisibility = other.mVisibility;
-}
-
-std::string Method::ToString(unsigned int indent) const
-{
-	std::string result;
-
-	result += Utils::Tools::indent(indent);
-	result += Visibility::convert(mVisibility);
-	result += " " + MemoryLayout::convert(mMemoryLayout);
-	if ( mLanguageFeatureState != LanguageFeatureState::Stable ) {
-		result += " " + LanguageFeatureState::convert(mLanguageFeatureState);
-	}
-	result += " " + QualifiedTypename() + " " + getName() + "( " + toString(mSignature) + " )";
-	result += " " + Mutability::convert(mMutability);
-	if ( mCheckedExceptions != CheckedExceptions::Unspecified ) {
-		result += " " + CheckedExceptions::convert(mCheckedExceptions);
-	}
-
-	return result;
-}
-
-
-}
-}
+
+// Header
+#include "Method.h"
+
+// Library includes
+
+// Project includes
+#include <Core/AST/Statement.h>
+#include <Core/Common/Types.h>
+#include <Core/Designtime/Parser/Parser.h>
+#include <Core/Runtime/Exceptions.h>
+#include <Tools/Strings.h>
+
+// Namespace declarations
+
+
+namespace Slang {
+namespace Common {
+
+
+Method::Method(IScope* parent, const std::string& name, TypeDeclaration type)
+: NamedScope(name, parent),
+  MethodSymbol(name),
+  mIsExtensionMethod(false),
+  mAllowDelete(true),
+  mIsInitialized(false),
+  mReturnType(std::move(type)),
+  mRootNode(nullptr)
+{
+}
+
+Method::Method(const Method& other, bool shallowCopy)
+: NamedScope(other.mName, other.mParent),
+  MethodSymbol(other.mName),
+  mIsExtensionMethod(other.mIsExtensionMethod),
+  mAllowDelete(!shallowCopy),
+  mIsInitialized(other.mIsInitialized),
+  mReturnType(other.mReturnType),
+  mRootNode(other.mRootNode),
+  mSignature(other.mSignature)
+{
+	mAlgorithm = other.mAlgorithm;
+	mCheckedExceptions = other.mCheckedExceptions;
+	mIsSealed = other.mIsSealed;
+	mLanguageFeatureState = other.mLanguageFeatureState;
+	mMemoryLayout = other.mMemoryLayout;
+	mMethodMutability = other.mMethodMutability;
+	mMethodType = other.mMethodType;
+	mMutability = other.mMutability;
+	mScopeName = other.mScopeName;
+	mScopeType = other.mScopeType;
+	mVisibility = other.mVisibility;
+
+	if ( !shallowCopy ) {
+		mTokens = other.mTokens;
+	}
+}
+
+Method::~Method()
+{
+	if ( mAllowDelete ) {
+		delete mRootNode;
+	}
+}
+
+bool Method::operator() (const Method& first, const Method& second) const
+{
+	if ( first.getName() == second.getName() ) {
+		ParameterList firstList = first.provideSignature();
+		ParameterList secondList = second.provideSignature();
+
+		// unable to identify return value during method call
+		//if ( this->type() != other.type() ) {
+		//	return this->type() < other.type();
+		//}
+
+		if ( firstList.size() == secondList.size() ) {
+			auto fIt = firstList.begin();
+			auto sIt = secondList.begin();
+			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
+				if ( fIt->type() != sIt->type() ) {
+					return fIt->type() < sIt->type();
+				}
+			}
+		}
+
+		return firstList.size() < secondList.size();
+	}
+
+	return first.getName() < second.getName();
+}
+
+bool Method::operator< (const Method& other) const
+{
+	if ( this->getName() == other.getName() ) {
+		ParameterList firstList = this->provideSignature();
+		ParameterList secondList = other.provideSignature();
+
+		// unable to identify return value during method call
+		//if ( this->type() != other.type() ) {
+		//	return this->type() < other.type();
+		//}
+
+		if ( firstList.size() == secondList.size() ) {
+			ParameterList::const_iterator fIt = firstList.begin();
+			ParameterList::const_iterator sIt = secondList.begin();
+
+			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
+				if ( fIt->type() != sIt->type() ) {
+					return fIt->type() < sIt->type();
+				}
+			}
+		}
+
+		return firstList.size() < secondList.size();
+	}
+
+	return this->getName() < other.getName();
+}
+
+Method& Method::operator= (const Method& other)
+{
+	if ( this != &other ) {
+		mAlgorithm = other.mAlgorithm;
+		mAllowDelete = false;
+		mCheckedExceptions = other.mCheckedExceptions;
+		mIsExtensionMethod = other.mIsExtensionMethod;
+		mIsInitialized = other.mIsInitialized;
+		mIsSealed = other.mIsSealed;
+		mLanguageFeatureState = other.mLanguageFeatureState;
+		mMemoryLayout = other.mMemoryLayout;
+		mMethodMutability = other.mMethodMutability;
+		mMethodType = other.mMethodType;
+		mMutability = other.mMutability;
+		mReturnType = other.mReturnType;
+		mRootNode = other.mRootNode;
+		mScopeName = other.mScopeName;
+		mScopeType = other.mScopeType;
+		mSignature = other.mSignature;
+		mTokens = other.mTokens;
+		mVisibility = other.mVisibility;
+	}
+
+	return *this;
+}
+
+const PrototypeConstraints& Method::getPrototypeConstraints() const
+{
+	return mReturnType.mConstraints;
+}
+
+AST::Statements* Method::getRootNode() const
+{
+	return mRootNode;
+}
+
+const TokenList& Method::getTokens() const
+{
+	return mTokens;
+}
+
+void Method::initialize(const PrototypeConstraints& constraints)
+{
+	if ( mIsInitialized ) {
+		return;	// no need for doing this twice
+	}
+
+	// Prepare return type
+	// {
+	auto type = constraints.lookupType(mReturnType.mName);
+
+	if ( !mReturnType.mConstraints.empty() ) {
+		type += constraints.extractTypes(mReturnType.mConstraints);
+	}
+
+	mReturnType.mCombinedName = type;
+	mReturnType.mConstraints = PrototypeConstraints();	// reset prototype constraints
+	// }
+
+	// Update method signature
+	// {
+	auto atomicTypes = provideAtomicTypes();
+
+	for ( auto& paramIt : mSignature ) {
+		// look up parameter type in object-wide prototype constraints
+		type = constraints.lookupType(paramIt.type());
+
+		// combine parameter type with
+		if ( !paramIt.typeConstraints().empty() ) {
+			type += constraints.extractTypes(paramIt.typeConstraints());
+		}
+
+		if ( paramIt.type() != type ) {
+			AccessMode::E access = AccessMode::ByValue;
+
+			if ( atomicTypes.find(type) == atomicTypes.end() ) {
+				access = AccessMode::ByReference;
+			}
+
+			paramIt = Parameter::CreateDesigntime(paramIt.name(),
+													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
+													 paramIt.value(),
+													 paramIt.hasDefaultValue(),
+													 paramIt.mutability(),
+													 access);
+		}
+	}
+	// }
+
+	// Update method tokens
+	// {
+	for ( auto& mToken : mTokens ) {
+		if ( mToken.type() == Token::Type::IDENTIFIER ) {
+			type = constraints.lookupType(mToken.content());
+
+			if ( type != mToken.content() ) {
+				mToken.resetContentTo(type);
+			}
+		}
+	}
+	// }
+
+	mIsInitialized = true;
+}
+
+bool Method::isExtensionMethod() const
+{
+	return mIsExtensionMethod;
+}
+
+bool Method::isPrototype() const
+{
+	return !mReturnType.mConstraints.empty();
+}
+
+bool Method::isSignatureValid(const ParameterList& params) const
+{
+	// check method signature by:
+	// 1) comparing the number of parameters
+	//	  by expecting the same number of parameters or less, we can make use of default parameters
+	if ( params.size() > mSignature.size() ) {
+		// we received more parameters than we expected
+		return false;
+	}
+
+	// 2) by comparing each parameter one by one
+	auto paramIt = params.begin();
+	auto sigIt = mSignature.begin();
+
+	while ( sigIt != mSignature.end() ) {
+		if ( paramIt != params.end() ) {
+			// compare received type with expected type
+			if ( sigIt->type() != paramIt->type() && sigIt->type() != VALUE_NONE ) {
+				// we received the wrong parameter type
+				return false;
+			}
+
+/*
+			// compare received const-ness with expected const-ness
+			if ( paramIt->mutability() == sigIt->mutability() ||
+				 (paramIt->mutability() == Mutability::Modify && sigIt->mutability() == Mutability::Const) ) {
+				// we received a const parameter but expect a modifiable parameter
+				return false;
+			}
+*/
+/*
+			// compare access types
+			if ( paramIt->access() != sigIt->access() ) {
+				// received wrong access type
+				return false;
+			}
+*/
+
+			++paramIt;
+		}
+		else if ( !sigIt->hasDefaultValue() ) {
+			// we received less parameters than expected and we have no default value set
+			return false;
+		}
+
+		++sigIt;
+	}
+
+	// no differences found, nailed it!
+	return true;
+}
+
+ParameterList Method::mergeParameters(const ParameterList& params) const
+{
+	if ( !isSignatureValid(params) ) {
+		throw Exceptions::ParameterCountMismatch("incorrect number or type of parameters");
+	}
+
+	ParameterList result;
+
+	auto paramIt = params.begin();
+
+	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
+		// initialize parameter with default value
+		auto value = sigIt->value();
+		Runtime::Reference ref;
+
+		if ( paramIt != params.end() ) {
+			// override parameter with correct value
+			ref = paramIt->reference();
+			value = paramIt->value();
+
+			// next iteration
+			++paramIt;
+		}
+
+		result.emplace_back(
+			sigIt->name(), TypeDeclaration(sigIt->type(), PrototypeConstraints(), sigIt->mutability()), value, sigIt->hasDefaultValue(), sigIt->mutability(), sigIt->access(), ref
+		);
+	}
+
+	return result;
+}
+
+const ParameterList& Method::provideSignature() const
+{
+	return mSignature;
+}
+
+const std::string& Method::QualifiedTypename() const
+{
+	return mReturnType.mCombinedName;
+}
+
+const TypeDeclaration& Method::ReturnType() const
+{
+	return mReturnType;
+}
+
+void Method::setParent(IScope *scope)
+{
+	mParent = scope;
+}
+
+void Method::setPrototypeConstraints(const PrototypeConstraints& constraints)
+{
+	mReturnType.mConstraints = constraints;
+}
+
+void Method::setQualifiedTypename(const std::string& type)
+{
+	mReturnType.mCombinedName = type;
+	mReturnType.mName = type;
+}
+
+void Method::setRootNode(AST::Statements* node)
+{
+	mRootNode = node;
+}
+
+void Method::setSignature(const ParameterList& params)
+{
+	mSignature = params;
+}
+
+void Method::setTokens(const TokenList& tokens)
+{
+	mTokens = tokens;
+}
+
+void Method::shallowCopy(const Method& other)
+{
+	mAlgorithm = other.mAlgorithm;
+	mAllowDelete = false;
+	mCheckedExceptions = other.mCheckedExceptions;
+	mIsExtensionMethod = other.mIsExtensionMethod;
+	mIsInitialized = other.mIsInitialized;
+	mIsSealed = other.mIsSealed;
+	mLanguageFeatureState = other.mLanguageFeatureState;
+	mMemoryLayout = other.mMemoryLayout;
+	mMethodMutability = other.mMethodMutability;
+	mMethodType = other.mMethodType;
+	mMutability = other.mMutability;
+	mRootNode = other.mRootNode;
+	mScopeName = other.mScopeName;
+	mScopeType = other.mScopeType;
+	mSignature = other.mSignature;
+	mVisibility = other.mVisibility;
+}
+
+std::string Method::ToString(unsigned int indent) const
+{
+	std::string result;
+
+	result += Utils::Tools::indent(indent);
+	result += Visibility::convert(mVisibility);
+	result += " " + MemoryLayout::convert(mMemoryLayout);
+	if ( mLanguageFeatureState != LanguageFeatureState::Stable ) {
+		result += " " + LanguageFeatureState::convert(mLanguageFeatureState);
+	}
+	result += " " + QualifiedTypename() + " " + getName() + "( " + toString(mSignature) + " )";
+	result += " " + Mutability::convert(mMutability);
+	if ( mCheckedExceptions != CheckedExceptions::Unspecified ) {
+		result += " " + CheckedExceptions::convert(mCheckedExceptions);
+	}
+
+	return result;
+}
+
+
+}
+}
-- 
2.43.0


From 9998f8b5c7f9abc83c751eeaedc64666574b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:02 +0000
Subject: [PATCH 10/34] fix: yield the negated conjunction for the nand
 operator

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index bcf96dc..1f9c062 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -212,7 +212,7 @@ void TreeInterpreter::evaluateBooleanBinaryExpression(BooleanBinaryExpression* e
 		// boolean expressions
 		// {
 		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
-		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult && !isTrue(right)); break;
+		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::NOR:  *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::OR:   *result = Runtime::BoolType(leftResult || isTrue(right)); break;
 		// }
-- 
2.43.0


From fc87b05f6e5952d1b4b2ab7fa3606ce679505e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:14 +0000
Subject: [PATCH 11/34] fix: do not delete objects twice that still reference
 each other at shutdown

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..7d3c821 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -3,6 +3,7 @@
 #include "Memory.h"
 
 // Library includes
+#include <vector>
 #ifdef _WIN32
 #else
 #	include <cstdint>
@@ -47,6 +48,9 @@ void Memory::add(const Runtime::Reference& ref)
 
 void Memory::deinit()
 {
+	std::vector<Runtime::Object*> objects;
+
+	// detach all objects first, an object that still references another one must not delete it again
 	for ( auto& it : mMemory ) {
 		/*
 		if( it.second.mObject ) {
@@ -56,8 +60,13 @@ void Memory::deinit()
 
 		//it.second.mObject->Destructor();
 
-		// force delete
-		delete it.second.mObject;
+		objects.push_back(it.second.mObject);
+		it.second.mObject = nullptr;
+	}
+
+	// force delete
+	for ( auto* object : objects ) {
+		delete object;
 	}
 
 	mMemory.clear();
-- 
2.43.0


From 3121a7d8d1035ccf52e518362b8bed94985db38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:46 +0000
Subject: [PATCH 12/34] fix: let locals and parameters hide members of the same
 name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..3ff35ad 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2464,7 +2464,17 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis ) {
+    // locals and parameters hide members of the same name
+    bool isLocal = false;
+    for ( IScope* scope = base; mThis && scope && scope != mThis && !isLocal; scope = scope->getEnclosingScope() ) {
+        isLocal = scope->resolve(token->content(), true, Visibility::Private) != nullptr;
+
+        if ( scope == mMethod ) {
+            break;
+        }
+    }
+
+    if ( mThis && !isLocal ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
-- 
2.43.0


From cd70b7f1d8cd461a3488918baec3f39b407ec5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:00 +0000
Subject: [PATCH 13/34] fix: order versions that differ only in their labels
 consistently

---
 Projects/Utils/SemVer/Version.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..13e60c4 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,7 +69,11 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
-				return !mLabel.empty();
+				if ( mLabel.empty() || other.mLabel.empty() ) {
+					return !mLabel.empty();
+				}
+
+				return mLabel < other.mLabel;
 			}
 
 			return mBugfix < other.mBugfix;
-- 
2.43.0


From aeb36cd39cc26cc5a31b9a1ae948dd4b34c30204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:29 +0000
Subject: [PATCH 14/34] fix: keep 64-bit results converted to int within 32
 bits

---
 Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index f2d4ae6..349bbdf 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -33,7 +33,7 @@ Int32Type::Int32Type( int32_t value )
 }
 
 Int32Type::Int32Type( const AtomicValue& value )
-: Object( ANONYMOUS_OBJECT, SYSTEM_LIBRARY, TYPENAME, AtomicValue( value.toInt() ) )
+: Object( ANONYMOUS_OBJECT, SYSTEM_LIBRARY, TYPENAME, AtomicValue( static_cast<int32_t>( value.toInt() ) ) )
 {
 	mIsAtomicType = true;
 }
-- 
2.43.0


From e6cf5e92efaaf608cff567fe94f2ed746d902b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:36 +0000
Subject: [PATCH 15/34] fix: accept a string when assigning to a double

---
 Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
index ed9e476..6c39896 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
@@ -80,6 +80,7 @@ void DoubleType::operator_assign( const Object* other )
          target == Int16Type::TYPENAME ||
          target == Int32Type::TYPENAME ||
          target == Int64Type::TYPENAME ||
+         target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
 		mValue = other->getValue().toDouble();
 		return;
-- 
2.43.0


From 04eee2ecd8d3450320bd32c5ae6d1e2bd6762df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:50 +0000
Subject: [PATCH 16/34] fix: do not destroy an object again whose destructor
 takes a reference to it

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 7d3c821..9d5e97c 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -81,7 +81,15 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
+		// keep the object referenced while its destructor is running, it may hand out references to itself
+		it->second.mCount++;
 		it->second.mObject->Destructor();
+		it->second.mCount--;
+
+		if ( it->second.mCount > 0 ) {
+			// the destructor left a reference behind, so the object has to stay
+			return;
+		}
 
 		delete it->second.mObject;
 	}
-- 
2.43.0


From c1d4f599768fc84ba37209661c9d9faf0c9649e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:56 +0000
Subject: [PATCH 17/34] Restore the line endings of two source files

---
 Projects/Core/Core/Common/Method.cpp          | 814 +++++++-------
 .../Core/VirtualMachine/VirtualMachine.cpp    | 998 +++++++++---------
 2 files changed, 906 insertions(+), 906 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 5827d45..f7ae67d 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -1,407 +1,407 @@
-
-// Header
-#include "Method.h"
-
-// Library includes
-
-// Project includes
-#include <Core/AST/Statement.h>
-#include <Core/Common/Types.h>
-#include <Core/Designtime/Parser/Parser.h>
-#include <Core/Runtime/Exceptions.h>
-#include <Tools/Strings.h>
-
-// Namespace declarations
-
-
-namespace Slang {
-namespace Common {
-
-
-Method::Method(IScope* parent, const std::string& name, TypeDeclaration type)
-: NamedScope(name, parent),
-  MethodSymbol(name),
-  mIsExtensionMethod(false),
-  mAllowDelete(true),
-  mIsInitialized(false),
-  mReturnType(std::move(type)),
-  mRootNode(nullptr)
-{
-}
-
-Method::Method(const Method& other, bool shallowCopy)
-: NamedScope(other.mName, other.mParent),
-  MethodSymbol(other.mName),
-  mIsExtensionMethod(other.mIsExtensionMethod),
-  mAllowDelete(!shallowCopy),
-  mIsInitialized(other.mIsInitialized),
-  mReturnType(other.mReturnType),
-  mRootNode(other.mRootNode),
-  mSignature(other.mSignature)
-{
-	mAlgorithm = other.mAlgorithm;
-	mCheckedExceptions = other.mCheckedExceptions;
-	mIsSealed = other.mIsSealed;
-	mLanguageFeatureState = other.mLanguageFeatureState;
-	mMemoryLayout = other.mMemoryLayout;
-	mMethodMutability = other.mMethodMutability;
-	mMethodType = other.mMethodType;
-	mMutability = other.mMutability;
-	mScopeName = other.mScopeName;
-	mScopeType = other.mScopeType;
-	mVisibility = other.mVisibility;
-
-	if ( !shallowCopy ) {
-		mTokens = other.mTokens;
-	}
-}
-
-Method::~Method()
-{
-	if ( mAllowDelete ) {
-		delete mRootNode;
-	}
-}
-
-bool Method::operator() (const Method& first, const Method& second) const
-{
-	if ( first.getName() == second.getName() ) {
-		ParameterList firstList = first.provideSignature();
-		ParameterList secondList = second.provideSignature();
-
-		// unable to identify return value during method call
-		//if ( this->type() != other.type() ) {
-		//	return this->type() < other.type();
-		//}
-
-		if ( firstList.size() == secondList.size() ) {
-			auto fIt = firstList.begin();
-			auto sIt = secondList.begin();
-			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
-				if ( fIt->type() != sIt->type() ) {
-					return fIt->type() < sIt->type();
-				}
-			}
-		}
-
-		return firstList.size() < secondList.size();
-	}
-
-	return first.getName() < second.getName();
-}
-
-bool Method::operator< (const Method& other) const
-{
-	if ( this->getName() == other.getName() ) {
-		ParameterList firstList = this->provideSignature();
-		ParameterList secondList = other.provideSignature();
-
-		// unable to identify return value during method call
-		//if ( this->type() != other.type() ) {
-		//	return this->type() < other.type();
-		//}
-
-		if ( firstList.size() == secondList.size() ) {
-			ParameterList::const_iterator fIt = firstList.begin();
-			ParameterList::const_iterator sIt = secondList.begin();
-
-			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
-				if ( fIt->type() != sIt->type() ) {
-					return fIt->type() < sIt->type();
-				}
-			}
-		}
-
-		return firstList.size() < secondList.size();
-	}
-
-	return this->getName() < other.getName();
-}
-
-Method& Method::operator= (const Method& other)
-{
-	if ( this != &other ) {
-		mAlgorithm = other.mAlgorithm;
-		mAllowDelete = false;
-		mCheckedExceptions = other.mCheckedExceptions;
-		mIsExtensionMethod = other.mIsExtensionMethod;
-		mIsInitialized = other.mIsInitialized;
-		mIsSealed = other.mIsSealed;
-		mLanguageFeatureState = other.mLanguageFeatureState;
-		mMemoryLayout = other.mMemoryLayout;
-		mMethodMutability = other.mMethodMutability;
-		mMethodType = other.mMethodType;
-		mMutability = other.mMutability;
-		mReturnType = other.mReturnType;
-		mRootNode = other.mRootNode;
-		mScopeName = other.mScopeName;
-		mScopeType = other.mScopeType;
-		mSignature = other.mSignature;
-		mTokens = other.mTokens;
-		mVisibility = other.mVisibility;
-	}
-
-	return *this;
-}
-
-const PrototypeConstraints& Method::getPrototypeConstraints() const
-{
-	return mReturnType.mConstraints;
-}
-
-AST::Statements* Method::getRootNode() const
-{
-	return mRootNode;
-}
-
-const TokenList& Method::getTokens() const
-{
-	return mTokens;
-}
-
-void Method::initialize(const PrototypeConstraints& constraints)
-{
-	if ( mIsInitialized ) {
-		return;	// no need for doing this twice
-	}
-
-	// Prepare return type
-	// {
-	auto type = constraints.lookupType(mReturnType.mName);
-
-	if ( !mReturnType.mConstraints.empty() ) {
-		type += constraints.extractTypes(mReturnType.mConstraints);
-	}
-
-	mReturnType.mCombinedName = type;
-	mReturnType.mConstraints = PrototypeConstraints();	// reset prototype constraints
-	// }
-
-	// Update method signature
-	// {
-	auto atomicTypes = provideAtomicTypes();
-
-	for ( auto& paramIt : mSignature ) {
-		// look up parameter type in object-wide prototype constraints
-		type = constraints.lookupType(paramIt.type());
-
-		// combine parameter type with
-		if ( !paramIt.typeConstraints().empty() ) {
-			type += constraints.extractTypes(paramIt.typeConstraints());
-		}
-
-		if ( paramIt.type() != type ) {
-			AccessMode::E access = AccessMode::ByValue;
-
-			if ( atomicTypes.find(type) == atomicTypes.end() ) {
-				access = AccessMode::ByReference;
-			}
-
-			paramIt = Parameter::CreateDesigntime(paramIt.name(),
-													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
-													 paramIt.value(),
-													 paramIt.hasDefaultValue(),
-													 paramIt.mutability(),
-													 access);
-		}
-	}
-	// }
-
-	// Update method tokens
-	// {
-	for ( auto& mToken : mTokens ) {
-		if ( mToken.type() == Token::Type::IDENTIFIER ) {
-			type = constraints.lookupType(mToken.content());
-
-			if ( type != mToken.content() ) {
-				mToken.resetContentTo(type);
-			}
-		}
-	}
-	// }
-
-	mIsInitialized = true;
-}
-
-bool Method::isExtensionMethod() const
-{
-	return mIsExtensionMethod;
-}
-
-bool Method::isPrototype() const
-{
-	return !mReturnType.mConstraints.empty();
-}
-
-bool Method::isSignatureValid(const ParameterList& params) const
-{
-	// check method signature by:
-	// 1) comparing the number of parameters
-	//	  by expecting the same number of parameters or less, we can make use of default parameters
-	if ( params.size() > mSignature.size() ) {
-		// we received more parameters than we expected
-		return false;
-	}
-
-	// 2) by comparing each parameter one by one
-	auto paramIt = params.begin();
-	auto sigIt = mSignature.begin();
-
-	while ( sigIt != mSignature.end() ) {
-		if ( paramIt != params.end() ) {
-			// compare received type with expected type
-			if ( sigIt->type() != paramIt->type() && sigIt->type() != VALUE_NONE ) {
-				// we received the wrong parameter type
-				return false;
-			}
-
-/*
-			// compare received const-ness with expected const-ness
-			if ( paramIt->mutability() == sigIt->mutability() ||
-				 (paramIt->mutability() == Mutability::Modify && sigIt->mutability() == Mutability::Const) ) {
-				// we received a const parameter but expect a modifiable parameter
-				return false;
-			}
-*/
-/*
-			// compare access types
-			if ( paramIt->access() != sigIt->access() ) {
-				// received wrong access type
-				return false;
-			}
-*/
-
-			++paramIt;
-		}
-		else if ( !sigIt->hasDefaultValue() ) {
-			// we received less parameters than expected and we have no default value set
-			return false;
-		}
-
-		++sigIt;
-	}
-
-	// no differences found, nailed it!
-	return true;
-}
-
-ParameterList Method::mergeParameters(const ParameterList& params) const
-{
-	if ( !isSignatureValid(params) ) {
-		throw Exceptions::ParameterCountMismatch("incorrect number or type of parameters");
-	}
-
-	ParameterList result;
-
-	auto paramIt = params.begin();
-
-	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
-		// initialize parameter with default value
-		auto value = sigIt->value();
-		Runtime::Reference ref;
-
-		if ( paramIt != params.end() ) {
-			// override parameter with correct value
-			ref = paramIt->reference();
-			value = paramIt->value();
-
-			// next iteration
-			++paramIt;
-		}
-
-		result.emplace_back(
-			sigIt->name(), TypeDeclaration(sigIt->type(), PrototypeConstraints(), sigIt->mutability()), value, sigIt->hasDefaultValue(), sigIt->mutability(), sigIt->access(), ref
-		);
-	}
-
-	return result;
-}
-
-const ParameterList& Method::provideSignature() const
-{
-	return mSignature;
-}
-
-const std::string& Method::QualifiedTypename() const
-{
-	return mReturnType.mCombinedName;
-}
-
-const TypeDeclaration& Method::ReturnType() const
-{
-	return mReturnType;
-}
-
-void Method::setParent(IScope *scope)
-{
-	mParent = scope;
-}
-
-void Method::setPrototypeConstraints(const PrototypeConstraints& constraints)
-{
-	mReturnType.mConstraints = constraints;
-}
-
-void Method::setQualifiedTypename(const std::string& type)
-{
-	mReturnType.mCombinedName = type;
-	mReturnType.mName = type;
-}
-
-void Method::setRootNode(AST::Statements* node)
-{
-	mRootNode = node;
-}
-
-void Method::setSignature(const ParameterList& params)
-{
-	mSignature = params;
-}
-
-void Method::setTokens(const TokenList& tokens)
-{
-	mTokens = tokens;
-}
-
-void Method::shallowCopy(const Method& other)
-{
-	mAlgorithm = other.mAlgorithm;
-	mAllowDelete = false;
-	mCheckedExceptions = other.mCheckedExceptions;
-	mIsExtensionMethod = other.mIsExtensionMethod;
-	mIsInitialized = other.mIsInitialized;
-	mIsSealed = other.mIsSealed;
-	mLanguageFeatureState = other.mLanguageFeatureState;
-	mMemoryLayout = other.mMemoryLayout;
-	mMethodMutability = other.mMethodMutability;
-	mMethodType = other.mMethodType;
-	mMutability = other.mMutability;
-	mRootNode = other.mRootNode;
-	mScopeName = other.mScopeName;
-	mScopeType = other.mScopeType;
-	mSignature = other.mSignature;
-	mVisibility = other.mVisibility;
-}
-
-std::string Method::ToString(unsigned int indent) const
-{
-	std::string result;
-
-	result += Utils::Tools::indent(indent);
-	result += Visibility::convert(mVisibility);
-	result += " " + MemoryLayout::convert(mMemoryLayout);
-	if ( mLanguageFeatureState != LanguageFeatureState::Stable ) {
-		result += " " + LanguageFeatureState::convert(mLanguageFeatureState);
-	}
-	result += " " + QualifiedTypename() + " " + getName() + "( " + toString(mSignature) + " )";
-	result += " " + Mutability::convert(mMutability);
-	if ( mCheckedExceptions != CheckedExceptions::Unspecified ) {
-		result += " " + CheckedExceptions::convert(mCheckedExceptions);
-	}
-
-	return result;
-}
-
-
-}
-}
+
+// Header
+#include "Method.h"
+
+// Library includes
+
+// Project includes
+#include <Core/AST/Statement.h>
+#include <Core/Common/Types.h>
+#include <Core/Designtime/Parser/Parser.h>
+#include <Core/Runtime/Exceptions.h>
+#include <Tools/Strings.h>
+
+// Namespace declarations
+
+
+namespace Slang {
+namespace Common {
+
+
+Method::Method(IScope* parent, const std::string& name, TypeDeclaration type)
+: NamedScope(name, parent),
+  MethodSymbol(name),
+  mIsExtensionMethod(false),
+  mAllowDelete(true),
+  mIsInitialized(false),
+  mReturnType(std::move(type)),
+  mRootNode(nullptr)
+{
+}
+
+Method::Method(const Method& other, bool shallowCopy)
+: NamedScope(other.mName, other.mParent),
+  MethodSymbol(other.mName),
+  mIsExtensionMethod(other.mIsExtensionMethod),
+  mAllowDelete(!shallowCopy),
+  mIsInitialized(other.mIsInitialized),
+  mReturnType(other.mReturnType),
+  mRootNode(other.mRootNode),
+  mSignature(other.mSignature)
+{
+	mAlgorithm = other.mAlgorithm;
+	mCheckedExceptions = other.mCheckedExceptions;
+	mIsSealed = other.mIsSealed;
+	mLanguageFeatureState = other.mLanguageFeatureState;
+	mMemoryLayout = other.mMemoryLayout;
+	mMethodMutability = other.mMethodMutability;
+	mMethodType = other.mMethodType;
+	mMutability = other.mMutability;
+	mScopeName = other.mScopeName;
+	mScopeType = other.mScopeType;
+	mVisibility = other.mVisibility;
+
+	if ( !shallowCopy ) {
+		mTokens = other.mTokens;
+	}
+}
+
+Method::~Method()
+{
+	if ( mAllowDelete ) {
+		delete mRootNode;
+	}
+}
+
+bool Method::operator() (const Method& first, const Method& second) const
+{
+	if ( first.getName() == second.getName() ) {
+		ParameterList firstList = first.provideSignature();
+		ParameterList secondList = second.provideSignature();
+
+		// unable to identify return value during method call
+		//if ( this->type() != other.type() ) {
+		//	return this->type() < other.type();
+		//}
+
+		if ( firstList.size() == secondList.size() ) {
+			auto fIt = firstList.begin();
+			auto sIt = secondList.begin();
+			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
+				if ( fIt->type() != sIt->type() ) {
+					return fIt->type() < sIt->type();
+				}
+			}
+		}
+
+		return firstList.size() < secondList.size();
+	}
+
+	return first.getName() < second.getName();
+}
+
+bool Method::operator< (const Method& other) const
+{
+	if ( this->getName() == other.getName() ) {
+		ParameterList firstList = this->provideSignature();
+		ParameterList secondList = other.provideSignature();
+
+		// unable to identify return value during method call
+		//if ( this->type() != other.type() ) {
+		//	return this->type() < other.type();
+		//}
+
+		if ( firstList.size() == secondList.size() ) {
+			ParameterList::const_iterator fIt = firstList.begin();
+			ParameterList::const_iterator sIt = secondList.begin();
+
+			for ( ; fIt != firstList.end() && sIt != secondList.end(); ++fIt, ++sIt ) {
+				if ( fIt->type() != sIt->type() ) {
+					return fIt->type() < sIt->type();
+				}
+			}
+		}
+
+		return firstList.size() < secondList.size();
+	}
+
+	return this->getName() < other.getName();
+}
+
+Method& Method::operator= (const Method& other)
+{
+	if ( this != &other ) {
+		mAlgorithm = other.mAlgorithm;
+		mAllowDelete = false;
+		mCheckedExceptions = other.mCheckedExceptions;
+		mIsExtensionMethod = other.mIsExtensionMethod;
+		mIsInitialized = other.mIsInitialized;
+		mIsSealed = other.mIsSealed;
+		mLanguageFeatureState = other.mLanguageFeatureState;
+		mMemoryLayout = other.mMemoryLayout;
+		mMethodMutability = other.mMethodMutability;
+		mMethodType = other.mMethodType;
+		mMutability = other.mMutability;
+		mReturnType = other.mReturnType;
+		mRootNode = other.mRootNode;
+		mScopeName = other.mScopeName;
+		mScopeType = other.mScopeType;
+		mSignature = other.mSignature;
+		mTokens = other.mTokens;
+		mVisibility = other.mVisibility;
+	}
+
+	return *this;
+}
+
+const PrototypeConstraints& Method::getPrototypeConstraints() const
+{
+	return mReturnType.mConstraints;
+}
+
+AST::Statements* Method::getRootNode() const
+{
+	return mRootNode;
+}
+
+const TokenList& Method::getTokens() const
+{
+	return mTokens;
+}
+
+void Method::initialize(const PrototypeConstraints& constraints)
+{
+	if ( mIsInitialized ) {
+		return;	// no need for doing this twice
+	}
+
+	// Prepare return type
+	// {
+	auto type = constraints.lookupType(mReturnType.mName);
+
+	if ( !mReturnType.mConstraints.empty() ) {
+		type += constraints.extractTypes(mReturnType.mConstraints);
+	}
+
+	mReturnType.mCombinedName = type;
+	mReturnType.mConstraints = PrototypeConstraints();	// reset prototype constraints
+	// }
+
+	// Update method signature
+	// {
+	auto atomicTypes = provideAtomicTypes();
+
+	for ( auto& paramIt : mSignature ) {
+		// look up parameter type in object-wide prototype constraints
+		type = constraints.lookupType(paramIt.type());
+
+		// combine parameter type with
+		if ( !paramIt.typeConstraints().empty() ) {
+			type += constraints.extractTypes(paramIt.typeConstraints());
+		}
+
+		if ( paramIt.type() != type ) {
+			AccessMode::E access = AccessMode::ByValue;
+
+			if ( atomicTypes.find(type) == atomicTypes.end() ) {
+				access = AccessMode::ByReference;
+			}
+
+			paramIt = Parameter::CreateDesigntime(paramIt.name(),
+													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
+													 paramIt.value(),
+													 paramIt.hasDefaultValue(),
+													 paramIt.mutability(),
+													 access);
+		}
+	}
+	// }
+
+	// Update method tokens
+	// {
+	for ( auto& mToken : mTokens ) {
+		if ( mToken.type() == Token::Type::IDENTIFIER ) {
+			type = constraints.lookupType(mToken.content());
+
+			if ( type != mToken.content() ) {
+				mToken.resetContentTo(type);
+			}
+		}
+	}
+	// }
+
+	mIsInitialized = true;
+}
+
+bool Method::isExtensionMethod() const
+{
+	return mIsExtensionMethod;
+}
+
+bool Method::isPrototype() const
+{
+	return !mReturnType.mConstraints.empty();
+}
+
+bool Method::isSignatureValid(const ParameterList& params) const
+{
+	// check method signature by:
+	// 1) comparing the number of parameters
+	//	  by expecting the same number of parameters or less, we can make use of default parameters
+	if ( params.size() > mSignature.size() ) {
+		// we received more parameters than we expected
+		return false;
+	}
+
+	// 2) by comparing each parameter one by one
+	auto paramIt = params.begin();
+	auto sigIt = mSignature.begin();
+
+	while ( sigIt != mSignature.end() ) {
+		if ( paramIt != params.end() ) {
+			// compare received type with expected type
+			if ( sigIt->type() != paramIt->type() && sigIt->type() != VALUE_NONE ) {
+				// we received the wrong parameter type
+				return false;
+			}
+
+/*
+			// compare received const-ness with expected const-ness
+			if ( paramIt->mutability() == sigIt->mutability() ||
+				 (paramIt->mutability() == Mutability::Modify && sigIt->mutability() == Mutability::Const) ) {
+				// we received a const parameter but expect a modifiable parameter
+				return false;
+			}
+*/
+/*
+			// compare access types
+			if ( paramIt->access() != sigIt->access() ) {
+				// received wrong access type
+				return false;
+			}
+*/
+
+			++paramIt;
+		}
+		else if ( !sigIt->hasDefaultValue() ) {
+			// we received less parameters than expected and we have no default value set
+			return false;
+		}
+
+		++sigIt;
+	}
+
+	// no differences found, nailed it!
+	return true;
+}
+
+ParameterList Method::mergeParameters(const ParameterList& params) const
+{
+	if ( !isSignatureValid(params) ) {
+		throw Exceptions::ParameterCountMismatch("incorrect number or type of parameters");
+	}
+
+	ParameterList result;
+
+	auto paramIt = params.begin();
+
+	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
+		// initialize parameter with default value
+		auto value = sigIt->value();
+		Runtime::Reference ref;
+
+		if ( paramIt != params.end() ) {
+			// override parameter with correct value
+			ref = paramIt->reference();
+			value = paramIt->value();
+
+			// next iteration
+			++paramIt;
+		}
+
+		result.emplace_back(
+			sigIt->name(), TypeDeclaration(sigIt->type(), PrototypeConstraints(), sigIt->mutability()), value, sigIt->hasDefaultValue(), sigIt->mutability(), sigIt->access(), ref
+		);
+	}
+
+	return result;
+}
+
+const ParameterList& Method::provideSignature() const
+{
+	return mSignature;
+}
+
+const std::string& Method::QualifiedTypename() const
+{
+	return mReturnType.mCombinedName;
+}
+
+const TypeDeclaration& Method::ReturnType() const
+{
+	return mReturnType;
+}
+
+void Method::setParent(IScope *scope)
+{
+	mParent = scope;
+}
+
+void Method::setPrototypeConstraints(const PrototypeConstraints& constraints)
+{
+	mReturnType.mConstraints = constraints;
+}
+
+void Method::setQualifiedTypename(const std::string& type)
+{
+	mReturnType.mCombinedName = type;
+	mReturnType.mName = type;
+}
+
+void Method::setRootNode(AST::Statements* node)
+{
+	mRootNode = node;
+}
+
+void Method::setSignature(const ParameterList& params)
+{
+	mSignature = params;
+}
+
+void Method::setTokens(const TokenList& tokens)
+{
+	mTokens = tokens;
+}
+
+void Method::shallowCopy(const Method& other)
+{
+	mAlgorithm = other.mAlgorithm;
+	mAllowDelete = false;
+	mCheckedExceptions = other.mCheckedExceptions;
+	mIsExtensionMethod = other.mIsExtensionMethod;
+	mIsInitialized = other.mIsInitialized;
+	mIsSealed = other.mIsSealed;
+	mLanguageFeatureState = other.mLanguageFeatureState;
+	mMemoryLayout = other.mMemoryLayout;
+	mMethodMutability = other.mMethodMutability;
+	mMethodType = other.mMethodType;
+	mMutability = other.mMutability;
+	mRootNode = other.mRootNode;
+	mScopeName = other.mScopeName;
+	mScopeType = other.mScopeType;
+	mSignature = other.mSignature;
+	mVisibility = other.mVisibility;
+}
+
+std::string Method::ToString(unsigned int indent) const
+{
+	std::string result;
+
+	result += Utils::Tools::indent(indent);
+	result += Visibility::convert(mVisibility);
+	result += " " + MemoryLayout::convert(mMemoryLayout);
+	if ( mLanguageFeatureState != LanguageFeatureState::Stable ) {
+		result += " " + LanguageFeatureState::convert(mLanguageFeatureState);
+	}
+	result += " " + QualifiedTypename() + " " + getName() + "( " + toString(mSignature) + " )";
+	result += " " + Mutability::convert(mMutability);
+	if ( mCheckedExceptions != CheckedExceptions::Unspecified ) {
+		result += " " + CheckedExceptions::convert(mCheckedExceptions);
+	}
+
+	return result;
+}
+
+
+}
+}
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index c00356b..8d62926 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -1,499 +1,499 @@
-
-// Header
-#include "VirtualMachine.h"
-
-// Library includes
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-#include <dirent.h>
-#endif
-#include <fstream>
-#include <vector>
-
-// Project includes
-#include <Core/AST/TreeGenerator.h>
-#include <Core/Common/Exceptions.h>
-#include <Core/Defines.h>
-#include <Core/Designtime/Analyser.h>
-#include <Core/Runtime/Script.h>
-#include <Logger/Logger.h>
-#include <Tools/Files.h>
-#include <Tools/Strings.h>
-#include <Utils.h>
-#include "Controller.h"
-
-// Namespace declarations
-
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename );
-
-}
-
-namespace Slang {
-
-
-#ifdef _WIN32
-	// Extension loading is not supported under Windows
-#else
-void read_directory(const std::string& dirname, std::vector<std::string>& files)
-{
-	DIR* dirp = opendir(dirname.c_str());
-	if ( !dirp ) {
-		// couldn't opern directory
-		return;
-	}
-
-	dirent* dp;
-
-	while ( (dp = readdir(dirp)) != nullptr ) {
-		std::string file(dp->d_name);
-
-		if ( file != "." && file != ".." ) {
-			files.push_back(dirname + "/" + file);
-		}
-	}
-
-	closedir(dirp);
-}
-#endif
-
-
-VirtualMachine::VirtualMachine()
-: mIsInitialized(false)
-{
-	Controller::Instance().init();
-}
-
-VirtualMachine::~VirtualMachine()
-{
-	for ( auto& script : mScripts ) {
-		delete script;
-	}
-	mScripts.clear();
-
-	Controller::Instance().deinit();
-
-	for ( const auto& extension : mExtensions ) {
-		delete extension;
-	}
-	mExtensions.clear();
-}
-
-bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
-{
-	if ( !extension ) {
-		// provided an invalid extension - ignore it...
-		OSerror( "invalid extension '" + library + "' detected!" );
-
-		return false;
-	}
-
-	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
-
-	try {
-		OSdebug( "adding extension '" + extension->getName() + "'" );
-
-		auto* globalScope = Controller::Instance().globalScope();
-		Extensions::ExtensionMethods methods;
-
-		extension->initialize( globalScope );
-		extension->provideMethods( methods );
-
-		if ( !mSpecification.empty() ) {
-			mSpecification.push_back( "" );
-		}
-		mSpecification.push_back( "Extension " + extension->getName() + ":" );
-		mSpecification.push_back( "---" );
-
-		for ( auto& method : methods ) {
-			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
-
-			method->setParent( globalScope );
-
-			globalScope->defineMethod( method->getName(), method );
-
-			mSpecification.push_back( method->ToString() );
-		}
-	}
-	catch ( std::exception &e ) {
-		OSerror( "error while loading extension: " + std::string( e.what() ) );
-	}
-
-	mExtensions.push_back( extension );
-
-	return true;
-}
-
-void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
-{
-	if ( libraryFolder .empty() ) {
-		return;
-	}
-
-#ifdef _MSC_VER
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
-#else
-	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
-#endif
-
-	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
-		mLibraryFolders.insert( folder );
-	}
-}
-
-Script* VirtualMachine::createScript(const std::string& content)
-{
-	if ( !mIsInitialized ) {
-		init();
-	}
-
-	auto* script = new Script();
-
-	mScripts.insert( script );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processString( content, mScriptFile );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
-		}
-	}
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : mLibraryFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
-		}
-	}
-
-	auto* globalScope = Controller::Instance().globalScope();
-
-	Controller::Instance().repository()->initializeBlueprints();
-
-	Controller::Instance().phase(Controller::Phase::Generation);
-
-	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
-	generator.process(globalScope);
-
-	auto errors = generator.hasErrors();
-	if ( errors ) {
-		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
-	}
-
-#ifdef USE_AST_OPTIMIZATION
-
-	Controller::Instance().phase(Controller::Phase::Optimization);
-
-	AST::TreeOptimizer optimizer;
-	optimizer.process(globalScope);
-
-#endif
-
-	return script;
-}
-
-Script* VirtualMachine::createScriptFromFile(const std::string& filename)
-{
-	OSdebug("processing script '" + filename + "'...");
-
-	if ( filename.empty() ) {
-		OSerror("invalid filename '" + filename + "' provided!");
-		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
-	}
-	if ( !Utils::Tools::Files::exists(filename) ) {
-		OSerror("file '" + filename + "' not found!");
-		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
-	}
-
-	// open file
-	std::ifstream in(filename.c_str(), std::ios_base::binary);
-
-	// read file content
-	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
-
-	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
-	mScriptFile = Utils::Tools::Files::GetFullname(filename);
-
-	return createScript(content);
-}
-
-Script* VirtualMachine::createScriptFromString(const std::string& content)
-{
-	OSdebug("processing string...");
-
-	mScriptFile = "";
-
-	return createScript(content);
-}
-
-void VirtualMachine::init()
-{
-	OSdebug( "initializing virtual machine..." );
-
-	auto* homepath = getenv( SLANG_LIBRARY );
-	if ( homepath ) {
-		std::string path( homepath );
-
-		while ( !path.empty() ) {
-			std::string left;
-			std::string right;
-
-			Utils::Tools::splitBy( path, ':', left, right );
-			addLibraryFolder( left );
-
-			path = right;
-		}
-	}
-
-	if ( !mSettings.DoSkipExtensions ) {
-#ifdef _WIN32
-		// Extension loading is not supported under Windows
-#else
-		OSdebug( "loading extensions..." );
-
-		std::vector<std::string> sharedLibraries;
-		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
-
-		// load installed shared libraries
-		for ( const std::string& library : sharedLibraries ) {
-			addExtension( mExtensionManager.load( library ), library );
-		}
-#endif
-	}
-
-	mIsInitialized = true;
-}
-
-bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
-{
-	auto library = folder + extension;
-
-#if defined __APPLE__
-	library += ".dylib";
-#elif defined __linux
-	library += ".so";
-#endif
-
-#if defined _MSC_VER
-	OSerror("Extension loading is not support under your OS!");
-
-	return false;
-#else
-	OSdebug( "Loading extension '" + library + "'" );
-
-	return addExtension( mExtensionManager.load( library ), library );
-#endif
-}
-
-bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
-{
-	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
-
-	if ( !Utils::Tools::Files::exists( library ) ) {
-		// provided library file doesn't exist!
-		return false;
-	}
-
-	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
-		OSdebug( "Ignoring already imported file '" + library + "'" );
-		return true;
-	}
-
-	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
-	addLibraryFolder( currentFolder );
-
-	mImportedLibraries.insert( library );
-
-	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
-	analyser.processFile( library );
-
-	// load all extension references
-	auto extensions = analyser.getExtensionReferences();
-	for ( const auto& extension : extensions ) {
-		if ( !loadExtension( extension, currentFolder ) ) {
-			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
-		}
-	}
-
-	auto librariesFolders = mLibraryFolders;
-	librariesFolders.insert( librariesFolders.begin(), currentFolder );
-
-	// load all library references
-	auto libraryImports = analyser.getLibraryReferences();
-
-	// (1) first try to resolve relative to the current file
-	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
-		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
-			libIt = libraryImports.erase( libIt );
-		}
-		else {
-			++libIt;
-		}
-	}
-
-	// (2) then try to resolve via the library folders
-	for ( const auto& file : libraryImports ) {
-		bool imported{ false };
-
-		for ( const auto& folder : librariesFolders ) {
-			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
-				imported = true;
-				break;
-			}
-		}
-
-		if ( !imported ) {
-			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
-		}
-	}
-
-	return true;
-}
-
-void VirtualMachine::printExtensions()
-{
-	std::cout << std::endl;
-	std::cout << "Extensions:" << std::endl;
-
-	for ( const auto& extension : mExtensions ) {
-		std::cout << extension->getName();
-
-		if ( !extension->getVersion().empty() ) {
-			std::cout << " version " << extension->getVersion();
-		}
-
-		std::cout << std::endl;
-	}
-
-	std::cout << std::endl;
-}
-
-void VirtualMachine::printLibraryFolders()
-{
-	std::cout << "Libraries:" << std::endl;
-
-	for ( const auto& libraryFolder : mLibraryFolders ) {
-		std::cout << libraryFolder << std::endl;
-	}
-}
-
-void VirtualMachine::printSpecification( const std::string& specification )
-{
-	if ( specification.empty() ) {
-		for ( const auto& str : mSpecification ) {
-			std::cout << str << std::endl;
-		}
-
-		return;
-	}
-
-	int32_t found{ 0 };
-	for ( const auto& str : mSpecification ) {
-		if ( str.find( specification ) != std::string::npos ) {
-            std::cout << str << std::endl;
-
-            found++;
-		}
-	}
-
-	if ( found ) {
-		//std::cout << std::endl;
-		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
-	}
-	else {
-		std::cout << "no result found for '" << specification << "'" << std::endl;
-	}
-}
-
-void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
-{
-	if ( !script ) {
-		throw Common::Exceptions::Exception("provided invalid script to run!");
-	}
-
-	Controller::Instance().phase(Controller::Phase::Execution);
-
-	MethodScope* globalScope = Controller::Instance().globalScope();
-
-	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
-	if ( !main ) {
-		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
-	}
-
-	auto* thread = Controller::Instance().threads()->createThread();
-
-	auto controlflow = thread->execute(nullptr, main, params, result);
-	if ( controlflow == Runtime::ControlFlow::Throw ) {
-		throw Runtime::ControlFlow::Throw;
-	}
-	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
-		throw Runtime::ControlFlow::ExitProgram;
-	}
-}
-
-void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromFile(filename);
-
-	run(script, params, result);
-}
-
-void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
-{
-	auto* script = createScriptFromString(content);
-
-	run(script, params, result);
-}
-
-VirtualMachine::Settings& VirtualMachine::settings()
-{
-	return mSettings;
-}
-
-
-}
-
-namespace {
-
-	std::string buildFilename( const std::string& folder, const std::string& filename ) {
-		auto path = Utils::Tools::Files::BuildPath( folder, filename );
-
-		// (1) look for a ".slang" file (new standard)
-		auto file = path + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (2) look for a ".os" file (deprecated)
-		file = path + ".os";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (3) look for an "All.slang" file (new standard)
-		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
-		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
-		}
-
-		// (4) look for an "All.os" file as a last resort (deprecated)
-		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
-	}
-
-}
+
+// Header
+#include "VirtualMachine.h"
+
+// Library includes
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+#include <dirent.h>
+#endif
+#include <fstream>
+#include <vector>
+
+// Project includes
+#include <Core/AST/TreeGenerator.h>
+#include <Core/Common/Exceptions.h>
+#include <Core/Defines.h>
+#include <Core/Designtime/Analyser.h>
+#include <Core/Runtime/Script.h>
+#include <Logger/Logger.h>
+#include <Tools/Files.h>
+#include <Tools/Strings.h>
+#include <Utils.h>
+#include "Controller.h"
+
+// Namespace declarations
+
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename );
+
+}
+
+namespace Slang {
+
+
+#ifdef _WIN32
+	// Extension loading is not supported under Windows
+#else
+void read_directory(const std::string& dirname, std::vector<std::string>& files)
+{
+	DIR* dirp = opendir(dirname.c_str());
+	if ( !dirp ) {
+		// couldn't opern directory
+		return;
+	}
+
+	dirent* dp;
+
+	while ( (dp = readdir(dirp)) != nullptr ) {
+		std::string file(dp->d_name);
+
+		if ( file != "." && file != ".." ) {
+			files.push_back(dirname + "/" + file);
+		}
+	}
+
+	closedir(dirp);
+}
+#endif
+
+
+VirtualMachine::VirtualMachine()
+: mIsInitialized(false)
+{
+	Controller::Instance().init();
+}
+
+VirtualMachine::~VirtualMachine()
+{
+	for ( auto& script : mScripts ) {
+		delete script;
+	}
+	mScripts.clear();
+
+	Controller::Instance().deinit();
+
+	for ( const auto& extension : mExtensions ) {
+		delete extension;
+	}
+	mExtensions.clear();
+}
+
+bool VirtualMachine::addExtension( Extensions::AExtension* extension, const std::string& library )
+{
+	if ( !extension ) {
+		// provided an invalid extension - ignore it...
+		OSerror( "invalid extension '" + library + "' detected!" );
+
+		return false;
+	}
+
+	OSdebug( "Loaded extension " + extension->getName() + " version " + extension->getVersion() );
+
+	try {
+		OSdebug( "adding extension '" + extension->getName() + "'" );
+
+		auto* globalScope = Controller::Instance().globalScope();
+		Extensions::ExtensionMethods methods;
+
+		extension->initialize( globalScope );
+		extension->provideMethods( methods );
+
+		if ( !mSpecification.empty() ) {
+			mSpecification.push_back( "" );
+		}
+		mSpecification.push_back( "Extension " + extension->getName() + ":" );
+		mSpecification.push_back( "---" );
+
+		for ( auto& method : methods ) {
+			OSdebug( "adding extension method '" + extension->getName() + "." + method->getName() + "'" );
+
+			method->setParent( globalScope );
+
+			globalScope->defineMethod( method->getName(), method );
+
+			mSpecification.push_back( method->ToString() );
+		}
+	}
+	catch ( std::exception &e ) {
+		OSerror( "error while loading extension: " + std::string( e.what() ) );
+	}
+
+	mExtensions.push_back( extension );
+
+	return true;
+}
+
+void VirtualMachine::addLibraryFolder(const std::string& libraryFolder )
+{
+	if ( libraryFolder .empty() ) {
+		return;
+	}
+
+#ifdef _MSC_VER
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  + "/" );
+#else
+	auto folder = Utils::Tools::Files::GetFullname( libraryFolder  ) + "/";
+#endif
+
+	if ( mLibraryFolders.find( folder ) == mLibraryFolders.end() ) {
+		mLibraryFolders.insert( folder );
+	}
+}
+
+Script* VirtualMachine::createScript(const std::string& content)
+{
+	if ( !mIsInitialized ) {
+		init();
+	}
+
+	auto* script = new Script();
+
+	mScripts.insert( script );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processString( content, mScriptFile );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, (*mLibraryFolders.begin()) ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + (*mLibraryFolders.begin()) + "'" );
+		}
+	}
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : mLibraryFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "'" );
+		}
+	}
+
+	auto* globalScope = Controller::Instance().globalScope();
+
+	Controller::Instance().repository()->initializeBlueprints();
+
+	Controller::Instance().phase(Controller::Phase::Generation);
+
+	AST::TreeGenerator generator( Controller::Instance().repository(), mSettings.DoCollectErrors );
+	generator.process(globalScope);
+
+	auto errors = generator.hasErrors();
+	if ( errors ) {
+		throw Common::Exceptions::Exception(Utils::Tools::toString(errors) + " error(s) during AST generation detected!");
+	}
+
+#ifdef USE_AST_OPTIMIZATION
+
+	Controller::Instance().phase(Controller::Phase::Optimization);
+
+	AST::TreeOptimizer optimizer;
+	optimizer.process(globalScope);
+
+#endif
+
+	return script;
+}
+
+Script* VirtualMachine::createScriptFromFile(const std::string& filename)
+{
+	OSdebug("processing script '" + filename + "'...");
+
+	if ( filename.empty() ) {
+		OSerror("invalid filename '" + filename + "' provided!");
+		throw Common::Exceptions::Exception("invalid filename '" + filename + "' provided!");
+	}
+	if ( !Utils::Tools::Files::exists(filename) ) {
+		OSerror("file '" + filename + "' not found!");
+		throw Common::Exceptions::Exception("file '" + filename + "' not found!");
+	}
+
+	// open file
+	std::ifstream in(filename.c_str(), std::ios_base::binary);
+
+	// read file content
+	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
+
+	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
+	mScriptFile = Utils::Tools::Files::GetFullname(filename);
+
+	return createScript(content);
+}
+
+Script* VirtualMachine::createScriptFromString(const std::string& content)
+{
+	OSdebug("processing string...");
+
+	mScriptFile = "";
+
+	return createScript(content);
+}
+
+void VirtualMachine::init()
+{
+	OSdebug( "initializing virtual machine..." );
+
+	auto* homepath = getenv( SLANG_LIBRARY );
+	if ( homepath ) {
+		std::string path( homepath );
+
+		while ( !path.empty() ) {
+			std::string left;
+			std::string right;
+
+			Utils::Tools::splitBy( path, ':', left, right );
+			addLibraryFolder( left );
+
+			path = right;
+		}
+	}
+
+	if ( !mSettings.DoSkipExtensions ) {
+#ifdef _WIN32
+		// Extension loading is not supported under Windows
+#else
+		OSdebug( "loading extensions..." );
+
+		std::vector<std::string> sharedLibraries;
+		read_directory( SHARED_EXTENSION_DIRECTORY, sharedLibraries );
+
+		// load installed shared libraries
+		for ( const std::string& library : sharedLibraries ) {
+			addExtension( mExtensionManager.load( library ), library );
+		}
+#endif
+	}
+
+	mIsInitialized = true;
+}
+
+bool VirtualMachine::loadExtension( const std::string& extension, const std::string& folder )
+{
+	auto library = folder + extension;
+
+#if defined __APPLE__
+	library += ".dylib";
+#elif defined __linux
+	library += ".so";
+#endif
+
+#if defined _MSC_VER
+	OSerror("Extension loading is not support under your OS!");
+
+	return false;
+#else
+	OSdebug( "Loading extension '" + library + "'" );
+
+	return addExtension( mExtensionManager.load( library ), library );
+#endif
+}
+
+bool VirtualMachine::loadLibrary(const std::string& library, const std::string& fromLibrary)
+{
+	OSdebug( "loading library file '" + library + "' from file '" + fromLibrary + "'..." );
+
+	if ( !Utils::Tools::Files::exists( library ) ) {
+		// provided library file doesn't exist!
+		return false;
+	}
+
+	if ( mImportedLibraries.find( library ) != mImportedLibraries.end() ) {
+		OSdebug( "Ignoring already imported file '" + library + "'" );
+		return true;
+	}
+
+	auto currentFolder = Utils::Tools::Files::ExtractPathname( library );
+	addLibraryFolder( currentFolder );
+
+	mImportedLibraries.insert( library );
+
+	Designtime::Analyser analyser( mSettings.DoSanityCheck, mSettings.PrintTokens );
+	analyser.processFile( library );
+
+	// load all extension references
+	auto extensions = analyser.getExtensionReferences();
+	for ( const auto& extension : extensions ) {
+		if ( !loadExtension( extension, currentFolder ) ) {
+			throw Common::Exceptions::Exception( "could not load extension '" + extension + "' from '" + currentFolder + "'" );
+		}
+	}
+
+	auto librariesFolders = mLibraryFolders;
+	librariesFolders.insert( librariesFolders.begin(), currentFolder );
+
+	// load all library references
+	auto libraryImports = analyser.getLibraryReferences();
+
+	// (1) first try to resolve relative to the current file
+	for ( auto libIt = libraryImports.begin(); libIt != libraryImports.end(); ) {
+		if ( loadLibrary( buildFilename( currentFolder, *libIt ), library ) ) {
+			libIt = libraryImports.erase( libIt );
+		}
+		else {
+			++libIt;
+		}
+	}
+
+	// (2) then try to resolve via the library folders
+	for ( const auto& file : libraryImports ) {
+		bool imported{ false };
+
+		for ( const auto& folder : librariesFolders ) {
+			if ( loadLibrary( buildFilename( folder, file ), library ) ) {
+				imported = true;
+				break;
+			}
+		}
+
+		if ( !imported ) {
+			throw Common::Exceptions::Exception( "could not resolve import '" + file + "' in file '" + library + "'" );
+		}
+	}
+
+	return true;
+}
+
+void VirtualMachine::printExtensions()
+{
+	std::cout << std::endl;
+	std::cout << "Extensions:" << std::endl;
+
+	for ( const auto& extension : mExtensions ) {
+		std::cout << extension->getName();
+
+		if ( !extension->getVersion().empty() ) {
+			std::cout << " version " << extension->getVersion();
+		}
+
+		std::cout << std::endl;
+	}
+
+	std::cout << std::endl;
+}
+
+void VirtualMachine::printLibraryFolders()
+{
+	std::cout << "Libraries:" << std::endl;
+
+	for ( const auto& libraryFolder : mLibraryFolders ) {
+		std::cout << libraryFolder << std::endl;
+	}
+}
+
+void VirtualMachine::printSpecification( const std::string& specification )
+{
+	if ( specification.empty() ) {
+		for ( const auto& str : mSpecification ) {
+			std::cout << str << std::endl;
+		}
+
+		return;
+	}
+
+	int32_t found{ 0 };
+	for ( const auto& str : mSpecification ) {
+		if ( str.find( specification ) != std::string::npos ) {
+            std::cout << str << std::endl;
+
+            found++;
+		}
+	}
+
+	if ( found ) {
+		//std::cout << std::endl;
+		//std::cout << "found " << found << " occurrence(s) of " << specification << std::endl;
+	}
+	else {
+		std::cout << "no result found for '" << specification << "'" << std::endl;
+	}
+}
+
+void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::Object* result)
+{
+	if ( !script ) {
+		throw Common::Exceptions::Exception("provided invalid script to run!");
+	}
+
+	Controller::Instance().phase(Controller::Phase::Execution);
+
+	MethodScope* globalScope = Controller::Instance().globalScope();
+
+	auto* main = dynamic_cast<Common::Method*>(globalScope->resolveMethod("Main", params, false));
+	if ( !main ) {
+		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
+	}
+
+	auto* thread = Controller::Instance().threads()->createThread();
+
+	auto controlflow = thread->execute(nullptr, main, params, result);
+	if ( controlflow == Runtime::ControlFlow::Throw ) {
+		throw Runtime::ControlFlow::Throw;
+	}
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
+}
+
+void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromFile(filename);
+
+	run(script, params, result);
+}
+
+void VirtualMachine::runScriptFromString(const std::string &content, const ParameterList &params, Runtime::Object *result)
+{
+	auto* script = createScriptFromString(content);
+
+	run(script, params, result);
+}
+
+VirtualMachine::Settings& VirtualMachine::settings()
+{
+	return mSettings;
+}
+
+
+}
+
+namespace {
+
+	std::string buildFilename( const std::string& folder, const std::string& filename ) {
+		auto path = Utils::Tools::Files::BuildPath( folder, filename );
+
+		// (1) look for a ".slang" file (new standard)
+		auto file = path + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (2) look for a ".os" file (deprecated)
+		file = path + ".os";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (3) look for an "All.slang" file (new standard)
+		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
+		if ( Utils::Tools::Files::exists( file ) ) {
+			return file;
+		}
+
+		// (4) look for an "All.os" file as a last resort (deprecated)
+		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
+	}
+
+}
-- 
2.43.0


From dac5f03c8834664c57198480dc62828a3f5182e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:17 +0000
Subject: [PATCH 18/34] fix: removing a breakpoint that is not set hung the
 debugger

---
 Projects/Core/Debugger/Debugger.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..7ec0bb4 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -166,11 +166,8 @@ bool Debugger::registerReceiver(IReceiver* receiver)
 
 bool Debugger::removeBreakPoint(const BreakPoint& breakpoint)
 {
-	size_t size = mBreakPoints.size();
-
-	mBreakPoints.erase(mBreakPoints.find(breakpoint));
-
-	return size > mBreakPoints.size();
+	// a breakpoint that is not set cannot be removed
+	return mBreakPoints.erase(breakpoint) > 0;
 }
 
 void Debugger::resume()
-- 
2.43.0


From 46eec564c51e9a9b0a33a3f02553750204f61780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:17 +0000
Subject: [PATCH 19/34] fix: the token of a modulo assignment was spelt as a
 multiplication

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..5621bb3 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -612,7 +612,7 @@ void Tokenizer::mergeAssignments()
 			// remove last added token ...
 			tmp.pop_back();
 			// ... and add ASSIGN_MULTI instead
-			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "*=", token->position() );
+			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "%=", token->position() );
 		}
 		else if ( (lastType == Token::Type::MATH_MULTIPLY) && (currentType == Token::Type::ASSIGN) ) {
 			// *=
-- 
2.43.0


From bd98e3988b47f6b2dc92b8e5660a984c981b5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:19 +0000
Subject: [PATCH 20/34] fix: a comment or product right after a block comment
 lost the token before it

The slash that ends a block comment was still remembered as the previous
character. A slash or star right behind it therefore started a new comment,
and the token before the comment was removed.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 5621bb3..932756d 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -475,6 +475,7 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			currentChar = 0;	// the slash belongs to the comment, it must not start another one
 		}
 
 		// counting lines and columns
-- 
2.43.0


From b867409ed41cad20acad9d96745d2c4ccdb13414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:19 +0000
Subject: [PATCH 21/34] fix: a word followed by a '#' comment ran into the next
 line

The comment did not end the word before it, so that word and the first one
of the following line were read as a single word.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 932756d..03c145e 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -418,6 +418,11 @@ void Tokenizer::process()
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
 			isSingleLineComment = true;
+
+			if ( !token.empty() ) {
+				addToken(token, pos);
+				token.clear();
+			}
 		}
 		// single line comments '//'
 		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '/' ) {
-- 
2.43.0


From c22ce93d8470148ea89101730e28b8362eac2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:19 +0000
Subject: [PATCH 22/34] fix: an escaped line break in a string was not counted
 as a line

All positions behind such a string were reported one line too early.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 03c145e..26fd5b8 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -414,6 +414,7 @@ void Tokenizer::process()
 
 	while ( offset <= size ) {
 		char currentChar{ mContent[offset++] };
+		const bool isLineBreak{ currentChar == '\n' };
 
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
@@ -485,7 +486,7 @@ void Tokenizer::process()
 
 		// counting lines and columns
 		pos.mColumn++;
-		if ( currentChar == '\n' ) {
+		if ( isLineBreak ) {
 			isSingleLineComment = false;
 			pos.mLine++;
 			pos.mColumn = 1;
-- 
2.43.0


From 956641f7af6a450ea8fe53b80173b2f5d03e5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:19 +0000
Subject: [PATCH 23/34] fix: the last word of a text without a trailing
 delimiter was lost

The terminating zero character is read as well, so the previous character is
always zero behind the loop. The debugger client could not read a lone value.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 26fd5b8..c05c4fc 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -498,7 +498,7 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( !token.empty() ) {
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From 728f6f93b432e4c363d4f93488c4cdf876b299ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:02 +0000
Subject: [PATCH 24/34] fix: a block comment starting with '/*/' ended right
 there

The star that starts a block comment was also taken for the star that ends it.
The rest of the comment was then read as code.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index c05c4fc..619d57d 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -436,6 +436,7 @@ void Tokenizer::process()
 			isMultiLineComment = true;
 			// remove last inserted token
 			mTokens.pop_back();
+			currentChar = 0;	// the star belongs to the start of the comment, it must not end it as well
 		}
 
 		if ( !isMultiLineComment && !isSingleLineComment ) {
-- 
2.43.0


From 9220c5637765a1e56a924194718b1719258f187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:57:17 +0000
Subject: [PATCH 25/34] fix: a const method could modify its object's members
 through an explicit 'this'

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3ff35ad..ca04dbd 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2321,7 +2321,10 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			// within a const method 'this' gives access to a const object, no matter if it is used explicitly or not
+			const bool isThis = name == IDENTIFIER_THIS && bpo == mThis;
+
+			symbol = new DesigntimeSymbolExpression(name, type, constraints, isThis && mMethod->isConstMethod(), isThis, blueprint->isAtomicType());
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
-- 
2.43.0


From 2a2ac53b642b211ce82bf3b6d8ed493d4e7719e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:04 +0000
Subject: [PATCH 26/34] fix: rest of a dotted name could be looked up in the
 surrounding scope

If the first part of a name is a member but one of the following parts is unknown, the name was resolved a second time starting with the unknown part.
Start again with the first part so that the unknown part is reported.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index ca04dbd..8c6fd5b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2478,6 +2478,8 @@ SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* b
     }
 
     if ( mThis && !isLocal ) {
+        const TokenIterator start = token;
+
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
@@ -2488,6 +2490,9 @@ SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* b
 
             return symbol;
         }
+
+        // the failed attempt may have consumed some parts of the name already
+        token = start;
     }
 
     return resolveWithExceptions(token, base);
-- 
2.43.0


From a5cbb9ef38243fd8a8ddf239c2954d0f8e0f68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:43 +0000
Subject: [PATCH 27/34] fix: crash on a value that directly follows the name of
 a variable

Within an expression a name that is followed by a literal, an identifier or a keyword was taken for a type cast even if it named no type.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8c6fd5b..232ea9e 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1392,6 +1392,10 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 		) {
 		//OSinfo("C-style typecasts will soon be deprecated");
 
+		if ( !dynamic_cast<DesigntimeSymbolExpression*>(symbol) ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected token '" + op->content() + "' found", op->position());
+		}
+
 		mRepository->prepareType(Common::TypeDeclaration(symbol->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints));
 
 		std::string type = symbol->getResultType();
-- 
2.43.0


From b077e9f98f8400d870e65a5b8d9005b56eaf1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:48:22 +0000
Subject: [PATCH 28/34] fix: tokens between the arguments of a call were
 silently skipped

Arguments have to be separated by commas and enclosed in parentheses.
Everything between an argument and the next comma was ignored, and 'new' without parentheses took the arguments of the next call.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 232ea9e..189b9a0 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1575,31 +1575,26 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 {
 	const Token start = (*token);
 
-	auto tmp = token;
-
-	auto opened = findNext(tmp, Token::Type::PARENTHESIS_OPEN);
-	auto closed = findNextBalancedParenthesis(++opened);
+	expect(Token::Type::PARENTHESIS_OPEN, token);
+	++token;
 
 	ExpressionList params;
 
-	tmp = opened;
 	// loop through all parameters separated by commas
-	while ( tmp != closed ) {
+	while ( token->type() != Token::Type::PARENTHESIS_CLOSE ) {
 		params.push_back(
-			expression(tmp)
+			expression(token)
 		);
 
-		if ( std::distance(tmp, closed) <= 0 ) {
+		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
 			break;
 		}
-		tmp = findNext(tmp, Token::Type::COMMA);
-		if ( std::distance(tmp, closed) < 0 ) {
-			break;
-		}
-		tmp++;
+
+		expect(Token::Type::COMMA, token);
+		++token;
 	}
 
-	token = ++closed;
+	++token;
 
 	return process_method(symbol, start, params);
 }
-- 
2.43.0


From 38b436b9165d2ec0e007d1de25bdd1a9fc5d5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:02 +0000
Subject: [PATCH 29/34] fix: let the trigonometric and logb functions take
 numbers

acos, acosh, asin, asinh, atan, atanh, cos, cosh, ilogb, logb, sin, sinh,
tan, tanh and their float variants declared a string parameter, so a call
with a number did not match.
---
 Projects/Extensions/LIBC/math/acos.h  | 4 ++--
 Projects/Extensions/LIBC/math/acosh.h | 4 ++--
 Projects/Extensions/LIBC/math/asin.h  | 4 ++--
 Projects/Extensions/LIBC/math/asinh.h | 4 ++--
 Projects/Extensions/LIBC/math/atan.h  | 4 ++--
 Projects/Extensions/LIBC/math/atanh.h | 4 ++--
 Projects/Extensions/LIBC/math/cos.h   | 4 ++--
 Projects/Extensions/LIBC/math/cosh.h  | 4 ++--
 Projects/Extensions/LIBC/math/ilogb.h | 4 ++--
 Projects/Extensions/LIBC/math/logb.h  | 4 ++--
 Projects/Extensions/LIBC/math/sin.h   | 4 ++--
 Projects/Extensions/LIBC/math/sinh.h  | 4 ++--
 Projects/Extensions/LIBC/math/tan.h   | 4 ++--
 Projects/Extensions/LIBC/math/tanh.h  | 4 ++--
 14 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/acos.h b/Projects/Extensions/LIBC/math/acos.h
index 3c7ef1f..170d37d 100644
--- a/Projects/Extensions/LIBC/math/acos.h
+++ b/Projects/Extensions/LIBC/math/acos.h
@@ -33,7 +33,7 @@ public:
 	: ExtensionMethod(0, "acos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -61,7 +61,7 @@ public:
 	: ExtensionMethod(0, "acosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/acosh.h b/Projects/Extensions/LIBC/math/acosh.h
index a9b76d1..0b01ee5 100644
--- a/Projects/Extensions/LIBC/math/acosh.h
+++ b/Projects/Extensions/LIBC/math/acosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "acosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "acoshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asin.h b/Projects/Extensions/LIBC/math/asin.h
index ab77a96..6eeec28 100644
--- a/Projects/Extensions/LIBC/math/asin.h
+++ b/Projects/Extensions/LIBC/math/asin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asinh.h b/Projects/Extensions/LIBC/math/asinh.h
index 4899097..f6dcfe2 100644
--- a/Projects/Extensions/LIBC/math/asinh.h
+++ b/Projects/Extensions/LIBC/math/asinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atan.h b/Projects/Extensions/LIBC/math/atan.h
index f6ddd63..1492720 100644
--- a/Projects/Extensions/LIBC/math/atan.h
+++ b/Projects/Extensions/LIBC/math/atan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atanh.h b/Projects/Extensions/LIBC/math/atanh.h
index a3372cd..71ffffb 100644
--- a/Projects/Extensions/LIBC/math/atanh.h
+++ b/Projects/Extensions/LIBC/math/atanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cos.h b/Projects/Extensions/LIBC/math/cos.h
index 322f5a0..72ba5c8 100644
--- a/Projects/Extensions/LIBC/math/cos.h
+++ b/Projects/Extensions/LIBC/math/cos.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "cosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cosh.h b/Projects/Extensions/LIBC/math/cosh.h
index ffd178f..0a1e5a8 100644
--- a/Projects/Extensions/LIBC/math/cosh.h
+++ b/Projects/Extensions/LIBC/math/cosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "coshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/ilogb.h b/Projects/Extensions/LIBC/math/ilogb.h
index f3901b4..879c62a 100644
--- a/Projects/Extensions/LIBC/math/ilogb.h
+++ b/Projects/Extensions/LIBC/math/ilogb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "ilogb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "ilogbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/logb.h b/Projects/Extensions/LIBC/math/logb.h
index 301d4b2..b208526 100644
--- a/Projects/Extensions/LIBC/math/logb.h
+++ b/Projects/Extensions/LIBC/math/logb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "logb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "logbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sin.h b/Projects/Extensions/LIBC/math/sin.h
index 2b174f0..f53e6f4 100644
--- a/Projects/Extensions/LIBC/math/sin.h
+++ b/Projects/Extensions/LIBC/math/sin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sinh.h b/Projects/Extensions/LIBC/math/sinh.h
index 1e0e418..2318329 100644
--- a/Projects/Extensions/LIBC/math/sinh.h
+++ b/Projects/Extensions/LIBC/math/sinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tan.h b/Projects/Extensions/LIBC/math/tan.h
index 38ca09f..ffe63b7 100644
--- a/Projects/Extensions/LIBC/math/tan.h
+++ b/Projects/Extensions/LIBC/math/tan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tanh.h b/Projects/Extensions/LIBC/math/tanh.h
index 040ee42..a473f44 100644
--- a/Projects/Extensions/LIBC/math/tanh.h
+++ b/Projects/Extensions/LIBC/math/tanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
-- 
2.43.0


From 7044610cbdc00a5677506285b96d833db6e0b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:02 +0000
Subject: [PATCH 30/34] fix: return a float from lgammaf and tgammaf

Both are declared to return a float but returned a double.
---
 Projects/Extensions/LIBC/math/lgamma.h | 2 +-
 Projects/Extensions/LIBC/math/tgamma.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/lgamma.h b/Projects/Extensions/LIBC/math/lgamma.h
index c12ef38..31a0e67 100644
--- a/Projects/Extensions/LIBC/math/lgamma.h
+++ b/Projects/Extensions/LIBC/math/lgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(lgammaf(param_arg));
+		*result = Runtime::FloatType(lgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/math/tgamma.h b/Projects/Extensions/LIBC/math/tgamma.h
index 5a6eeb7..d4a48d1 100644
--- a/Projects/Extensions/LIBC/math/tgamma.h
+++ b/Projects/Extensions/LIBC/math/tgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(tgammaf(param_arg));
+		*result = Runtime::FloatType(tgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 04f306c6b7658684ece9887f45aa231341300433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:13 +0000
Subject: [PATCH 31/34] fix: provide the remainder function

Only its float variant was registered.
---
 Projects/Extensions/LIBC/math/math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/LIBC/math/math.cpp b/Projects/Extensions/LIBC/math/math.cpp
index ff5cf2e..05e1873 100644
--- a/Projects/Extensions/LIBC/math/math.cpp
+++ b/Projects/Extensions/LIBC/math/math.cpp
@@ -173,6 +173,7 @@ void math_t::provideMethods( ExtensionMethods& methods )
     methods.push_back( new POW() );
     methods.push_back( new POWF() );
     methods.push_back( new POWL() );
+    methods.push_back( new REMAINDER() );
     methods.push_back( new REMAINDERF() );
     methods.push_back( new RINT() );
     methods.push_back( new RINTF() );
-- 
2.43.0


From 1aec7f82a29bbebda9b5986227beeabcb26b5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:43 +0000
Subject: [PATCH 32/34] fix: let strncat append the first characters

It skipped the given number of characters instead of limiting the appended
text to them.
---
 Projects/Extensions/LIBC/cstring/strncat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strncat.h b/Projects/Extensions/LIBC/cstring/strncat.h
index 5832058..b2b8abb 100644
--- a/Projects/Extensions/LIBC/cstring/strncat.h
+++ b/Projects/Extensions/LIBC/cstring/strncat.h
@@ -46,7 +46,7 @@ public:
 		auto param_source      = (*it++).value().toStdString();
 		auto param_num         = (*it++).value().toInt();
 
-		*result = Runtime::StringType( param_destination + param_source.substr( param_num ) );
+		*result = Runtime::StringType( param_destination + param_source.substr( 0, param_num ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From f6b10a58089799e761fb89289d260dcc6dacbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:26:43 +0000
Subject: [PATCH 33/34] fix: declare what strstr takes and strchr and strrchr
 return

strstr declared its second parameter as a number, so a call with a text did
not match. strchr and strrchr return a text but were declared to return a
number.
---
 Projects/Extensions/LIBC/cstring/strchr.h  | 2 +-
 Projects/Extensions/LIBC/cstring/strrchr.h | 2 +-
 Projects/Extensions/LIBC/cstring/strstr.h  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index 114af6d..c03f666 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -27,7 +27,7 @@ class STRCHR : public ExtensionMethod
 {
 public:
 	STRCHR()
-	: ExtensionMethod( 0, "strchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index 8fce434..715d61b 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -27,7 +27,7 @@ class STRRCHR : public ExtensionMethod
 {
 public:
 	STRRCHR()
-	: ExtensionMethod( 0, "strrchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strrchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b4922b5..b111755 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -30,7 +30,7 @@ public:
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME, 0 ) );
-		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::Int32Type::TYPENAME, 0 ) );
+		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::StringType::TYPENAME, 0 ) );
 
 		setSignature( params );
 	}
-- 
2.43.0


From 9f23ac61933a570e1b0ba3c82a55682042430444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:10:49 +0000
Subject: [PATCH 34/34] fix: apply & and | to int16 and int64 values

Both operators were accepted for two int16 or two int64 operands but ended
the program with an invalid operation when they were evaluated.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..2df6db1 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -124,12 +124,24 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitand( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -224,12 +236,24 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitor( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0

