From 65283385765605446262a7f94d52d8e3cf18eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:26 +0000
Subject: [PATCH 01/89] fix: leave the object scope when a chained call fails

The scope pushed for the left side of a chained expression stayed active
when the right side raised an exception. Names were then resolved in the
wrong scope and local objects were destroyed late.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..5bf2668 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -362,7 +362,14 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	pushScope(&left);
 
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
+	try {
+		evaluate(exp->mRHS, &right);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		popScope();		// the pushed scope must not outlive this expression
+
+		throw;			// promote control flow
+	}
 
 	popScope();
 
-- 
2.43.0


From dd3189ae37e7b6db49542e5f0671e204a0957515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:27 +0000
Subject: [PATCH 02/89] fix: propagate exceptions raised by constructors inside
 expressions

A failing constructor only marked the control flow, so the surrounding
expression went on and the exception could get lost, for example in a
return statement or in a method argument.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 5bf2668..38d6716 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -352,6 +352,12 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 
 	// execute new object's constructor
 	mControlFlow = result->Constructor(params);
+
+	switch ( mControlFlow ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: mControlFlow = Runtime::ControlFlow::Normal; break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From 1635b544831330f3b6fee2542dbb9f346b789275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:27 +0000
Subject: [PATCH 03/89] fix: propagate exceptions raised inside assignment
 expressions

An exception in the right side of an assignment used as part of a larger
expression was only noted, and the larger expression continued with an
unset value.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 38d6716..3cdf0f6 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -109,7 +109,7 @@ void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Ru
 
 	Runtime::Object right;
 	// evaluate right expression
-	tryControl(evaluate(exp->mRHS, &right));
+	evaluate(exp->mRHS, &right);
 
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
-- 
2.43.0


From bf8beff83da2cfff52448f03849cff8d93d3e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:41 +0000
Subject: [PATCH 04/89] fix: remove the loop variable of a for loop on every
 way out

Leaving a for loop by break, return or an exception kept the scope of the
loop variable open until the end of the method, so objects held by it were
destroyed late and names could resolve to it. A failure in the
initialisation or the iteration step also let the loop carry on.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 22 ++++++++++++++++++----
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 3cdf0f6..aa1667f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1033,12 +1033,25 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	// push new scope for loop variable
 	pushScope();
 
+	// execute the loop itself
+	processFor(node);
+
+	// pop scope to remove loop variable (regardless of how the loop has been left)
+	popScope();
+}
+
+void TreeInterpreter::processFor(ForStatement* node)
+{
 	// execute initialization statement
 	visit(node->mInitialization);
 
-	Runtime::Object condition;
+	if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+		return;		// initialization failed
+	}
+
 	for  ( ; ; ) {
 		if ( node->mCondition ) {
+			Runtime::Object condition;
 			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
 
 			// validate loop condition
@@ -1062,10 +1075,11 @@ void TreeInterpreter::visitFor(ForStatement* node)
 
 		// execute arbitrary iteration node type
 		visit(node->mIteration);
-	}
 
-	// pop scope to remove loop variable
-	popScope();
+		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+			return;		// iteration failed
+		}
+	}
 }
 
 void TreeInterpreter::visitForeach(ForeachStatement* node)
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index a27ec9f..9f5438b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -53,6 +53,7 @@ public: // Execution
 
 private:
 	void process(Statements* statements);
+	void processFor(ForStatement* node);
 
 	inline void visit(Node* node);
 
-- 
2.43.0


From 4bdaa561b761af2125ea74167dd87144608d0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:08 +0000
Subject: [PATCH 05/89] fix: let exceptions of an iterator reach the enclosing
 handler

An exception raised by getIterator, hasNext or next during a foreach loop
skipped the handlers of the current method and left its scopes and stack
frame behind.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 42 ++++++++++++++--------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index aa1667f..723f177 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -327,6 +327,22 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 	}
 }
 
+void TreeInterpreter::evaluateMethodOf(Runtime::Object* object, MethodExpression* exp, Runtime::Object* result)
+{
+	pushScope(object);
+
+	try {
+		evaluateMethodExpression(exp, result);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		popScope();		// the pushed scope must not outlive this call
+
+		throw;			// promote control flow
+	}
+
+	popScope();
+}
+
 void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object* result)
 {
 	auto* method = dynamic_cast<MethodExpression*>(exp->mExpression);
@@ -1092,15 +1108,11 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		Runtime::Object collection;
 		tryControl(evaluate(node->mCollectionExpression, &collection));
 
-		pushScope(&collection);
-
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
-
-		popScope();
+		tryControl(evaluateMethodOf(&collection, node->mGetIteratorExpression, &iterator));
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1110,11 +1122,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		// {
 		Runtime::Object condition;
 
-		pushScope(&iterator);
-
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
-
-		popScope();
+		tryControl(evaluateMethodOf(&iterator, node->mHasNextExpression, &condition));
 
 		if ( !isTrue(condition) ) {	// do we have more items to iterate over?
 			break;
@@ -1131,11 +1139,15 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// }
 
 			// iterate over next item
-			pushScope(&iterator);
-
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
+			try {
+				evaluateMethodOf(&iterator, node->mNextExpression, loopVariable);
+			}
+			catch ( Runtime::ControlFlow::E& e ) {
+				mControlFlow = e;
 
-			popScope();
+				popScope();		// pop scope and remove loop variable
+				return;
+			}
 
 			// set mutability after initializing
 			loopVariable->setMutability(typeDeclaration->mIsConst ? Mutability::Const : Mutability::Modify);
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 9f5438b..c78a51e 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -100,6 +100,7 @@ private:
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
 	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
+	void evaluateMethodOf(Runtime::Object* object, MethodExpression* exp, Runtime::Object* result);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
-- 
2.43.0


From d65fe835abbdf5f92497b2c52be51113fc69b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:15 +0000
Subject: [PATCH 06/89] fix: end the program with the given status when exit is
 called

exit raised a C++ exception that passed through the active stack frames. It
corrupted memory when called from a nested function, and the status given
was never used. It now unwinds like the other control flow statements,
skips finally blocks, and the interpreter returns the status given.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp           |  6 +++---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp |  8 ++++++++
 Projects/slang/main.cpp                              | 12 +++++++-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 723f177..ff53163 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1035,7 +1035,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
@@ -1406,8 +1406,8 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// store current control flow and re-set it after finally block has been executed
 	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;
 
-	// execute finally-block if present
-	if ( node->mFinallyBlock ) {
+	// execute finally-block if present (exit ends the program at once)
+	if ( node->mFinallyBlock && mControlFlow != Runtime::ControlFlow::ExitProgram ) {
 		// reset current control flow to allow execution of finally-block
 		mControlFlow = Runtime::ControlFlow::Normal;
 
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..bad8743 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -442,6 +442,14 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
 		throw Runtime::ControlFlow::Throw;
 	}
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		if ( result ) {
+			// provide the given exit status as result
+			*result = *thread->exception().getData();
+		}
+
+		throw Runtime::ControlFlow::ExitProgram;
+	}
 }
 
 void VirtualMachine::runScriptFromFile(const std::string &filename, const ParameterList &params, Runtime::Object *result)
diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index 85158bf..b494e53 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -223,6 +223,8 @@ int main( int argc, const char* argv[] )
 		return 0;
 	}
 
+	Runtime::Object result;
+
 	try {
 		auto* script = mVirtualMachine.createScriptFromFile( mFilename );
 		assert( script );
@@ -234,7 +236,6 @@ int main( int argc, const char* argv[] )
 			std::cout << "Syntax check done, no errors found." << std::endl;
 		}
 		else {
-			Runtime::Object result;
 			mVirtualMachine.run( script, mParameters, &result );
 
 			if ( result.getValue().type() == Runtime::AtomicValue::Type::INT ) {
@@ -245,12 +246,13 @@ int main( int argc, const char* argv[] )
 		return 0;
 	}
 	catch ( Runtime::ControlFlow::E &e ) {
-		Utils::Common::printStackTrace();
-
 		if ( e == Runtime::ControlFlow::ExitProgram ) {
-			return 0;
+			return result.getValue().toInt();
 		}
-		else if ( e == Runtime::ControlFlow::Throw ) {
+
+		Utils::Common::printStackTrace();
+
+		if ( e == Runtime::ControlFlow::Throw ) {
 			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
 			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
 		}
-- 
2.43.0


From 28db560b0f83f116398e6a503a518d647ff5fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:15 +0000
Subject: [PATCH 07/89] fix: keep the pending exception while nested ones are
 handled

There is only one slot for exception data. An exception raised and handled
inside a finally or catch block replaced the outer one, so the outer
exception continued, or was rethrown, with the wrong value.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index ff53163..03985f9 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1353,6 +1353,9 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 
 void TreeInterpreter::visitTry(TryStatement* node)
 {
+	// exception data of an exception that is currently handled further up
+	const Runtime::ExceptionData outerException = mThread->exception();
+
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
@@ -1411,13 +1414,25 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// reset current control flow to allow execution of finally-block
 		mControlFlow = Runtime::ControlFlow::Normal;
 
+		// exceptions handled inside the finally-block must not replace a pending one
+		const Runtime::ExceptionData pendingException = mThread->exception();
+
 		visitStatements(node->mFinallyBlock);
+
+		if ( mControlFlow == Runtime::ControlFlow::Normal ) {
+			mThread->exception(pendingException);
+		}
 	}
 
 	// reset control flow to previous state if not set differently by finally statement
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
 	}
+
+	// an exception that has been handled here must not replace the one a surrounding catch-block is dealing with
+	if ( mControlFlow != Runtime::ControlFlow::Throw && mControlFlow != Runtime::ControlFlow::ExitProgram ) {
+		mThread->exception(outerException);
+	}
 }
 
 Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
-- 
2.43.0


From 01ffdd7bf873cba17ce8b4dacb5b4d86b257934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:32 +0000
Subject: [PATCH 08/89] fix: release global objects before the code of their
 destructors

Global objects that were still alive at the end of a program were released
after the methods had been deleted. Running their destructors then accessed
freed memory and crashed the interpreter.
---
 Projects/Core/Core/Common/Namespace.cpp          | 13 +++++++++++++
 Projects/Core/Core/Common/Namespace.h            |  1 +
 Projects/Core/Core/Object.cpp                    |  5 +++++
 Projects/Core/Core/Object.h                      |  1 +
 Projects/Core/Core/VirtualMachine/Controller.cpp |  3 +++
 5 files changed, 23 insertions(+)

diff --git a/Projects/Core/Core/Common/Namespace.cpp b/Projects/Core/Core/Common/Namespace.cpp
index 4fa0b0f..05208e2 100644
--- a/Projects/Core/Core/Common/Namespace.cpp
+++ b/Projects/Core/Core/Common/Namespace.cpp
@@ -5,6 +5,7 @@
 // Library includes
 
 // Project includes
+#include <Core/Object.h>
 #include <Tools/Strings.h>
 #include "Method.h"
 
@@ -55,6 +56,18 @@ Namespace::~Namespace()
 	}
 }
 
+void Namespace::clearObjects()
+{
+	for ( auto& symbol : mSymbols ) {
+		if ( auto* space = dynamic_cast<Namespace*>( symbol.second ) ) {
+			space->clearObjects();
+		}
+		else if ( auto* object = dynamic_cast<Runtime::Object*>( symbol.second ) ) {
+			object->clearReference();
+		}
+	}
+}
+
 void Namespace::defineMethod(const std::string& name, Method* method)
 {
 	MethodScope::defineMethod(name, method);
diff --git a/Projects/Core/Core/Common/Namespace.h b/Projects/Core/Core/Common/Namespace.h
index 6a80d66..081b282 100644
--- a/Projects/Core/Core/Common/Namespace.h
+++ b/Projects/Core/Core/Common/Namespace.h
@@ -37,6 +37,7 @@ public:	// Symbol::IType implementation
 	void setQualifiedTypename(const std::string& type) { mQualifiedTypename = type; }
 
 public:
+	void clearObjects();
 	std::string ToString(unsigned int indent = 0) const;
 
 private:
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..d5a1b27 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -191,6 +191,11 @@ ControlFlow::E Object::Constructor(const ParameterList& params)
 	return controlflow;
 }
 
+void Object::clearReference()
+{
+	assignReference(Reference());
+}
+
 void Object::defineMember(const std::string& name, Symbol* symbol)
 {
 	MethodScope::define(name, symbol);
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index 037e09d..9d11c45 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -69,6 +69,7 @@ public:	// Setup
 	void setBluePrint(Designtime::BluePrintObject* blueprint);
 
 public:	// Reference
+	void clearReference();
 	const Reference& getReference() const;
 	void setReference(const Reference& reference);
 
diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 502b3f6..fc7a2f6 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -27,6 +27,9 @@ void Controller::deinit()
 {
 	assert(mPhase > Phase::Startup);
 
+	// release all global objects as long as everything their destructors may use is still available
+	mGlobalScope->clearObjects();
+
 	delete mGlobalScope;
 	mGlobalScope = nullptr;
 
-- 
2.43.0


From 214fd649758fa48876509e38c2e31f73a5f38432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:33 +0000
Subject: [PATCH 09/89] fix: propagate exceptions raised by overloaded
 comparison operators

The result of executing an overloaded comparison or conversion operator was
used without looking at how it ended. An exception or exit inside such an
operator was lost and the program continued with a meaningless result.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp    | 11 ++++++----
 Projects/Core/Core/Object.cpp                 |  8 ++++++-
 .../Core/Core/Runtime/OperatorOverloading.cpp | 21 ++++++++++++++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 03985f9..f5d2e79 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1007,7 +1007,7 @@ void TreeInterpreter::visitAssignment(AssignmentStatement* node)
 	tryControl(evaluate(node->mRightExpression, &right));
 
 	// execute assignment to lvalue (this may involve a type cast)
-	Runtime::operator_binary_assign(&lvalue, &right);
+	tryControl(Runtime::operator_binary_assign(&lvalue, &right));
 }
 
 void TreeInterpreter::visitBreak(BreakStatement* /*node*/)
@@ -1207,7 +1207,7 @@ void TreeInterpreter::visitReturn(ReturnStatement* node)
 
 		tryControl(evaluate(node->mExpression, &tmp));
 
-		Runtime::operator_binary_assign(&mFrame->returnValue(), &tmp);
+		tryControl(Runtime::operator_binary_assign(&mFrame->returnValue(), &tmp));
 	}
 
 	mControlFlow = Runtime::ControlFlow::Return;
@@ -1308,7 +1308,10 @@ void TreeInterpreter::visitSwitch(SwitchStatement* node)
 			tryControl(evaluate(stmt->mCaseExpression, &caseValue));
 
 			// check if our switch-expression and our case-expression match
-			if ( Runtime::operator_binary_equal(&value, &caseValue) ) {
+			bool isEqual = false;
+			tryControl(isEqual = Runtime::operator_binary_equal(&value, &caseValue));
+
+			if ( isEqual ) {
 				caseMatched = true;
 
 				// both expressions matched, so we need to execute this case-block
@@ -1449,7 +1452,7 @@ Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
 		tryEvaluateReturnNull( node->mAssignmentExpression, &right );
 
 		// execute assignment to lvalue (this may involve a type cast)
-		Runtime::operator_binary_assign( lvalue, &right );
+		tryControlReturnNull( Runtime::operator_binary_assign( lvalue, &right ) );
 	}
 
 	return lvalue;
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index d5a1b27..ae483e7 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -365,7 +365,13 @@ void Object::operator_assign(const Object *other)
 
 	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, false, Visibility::Public);
 	if ( value_operator ) {
-		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		auto controlflow = Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+
+		switch ( controlflow ) {
+			case ControlFlow::ExitProgram:
+			case ControlFlow::Throw: throw controlflow;	// promote control flow
+			default: break;
+		}
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..b69ab93 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -27,6 +27,17 @@ namespace Slang {
 namespace Runtime {
 
 
+static void executeOperator( Object* lvalue, const std::string& name, const ParameterList& params, Object* result )
+{
+	auto controlflow = lvalue->execute( result, name, params );
+
+	switch ( controlflow ) {
+		case ControlFlow::ExitProgram:
+		case ControlFlow::Throw: throw controlflow;	// promote control flow
+		default: break;
+	}
+}
+
 void operator_binary_assign( Object* lvalue, Object* rvalue )
 {
 	if ( !lvalue || !rvalue ) {
@@ -355,7 +366,7 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 
 	if ( lvalue->resolveMethod( "operator==", params, false, Visibility::Public ) ) {
 		Object tmp;
-		lvalue->execute( &tmp, "operator==", params );
+		executeOperator( lvalue, "operator==", params, &tmp );
 		return isTrue( tmp );
 	}
 
@@ -411,7 +422,7 @@ bool operator_binary_greater( Object* lvalue, Object* rvalue )
 	params.emplace_back( Parameter::CreateRuntime( rvalue->QualifiedTypename(), rvalue->getValue(), rvalue->getReference() ) );
 
 	Object tmp;
-	lvalue->execute( &tmp, "operator>", params );
+	executeOperator( lvalue, "operator>", params, &tmp );
 	return isTrue( tmp );
 }
 
@@ -463,7 +474,7 @@ bool operator_binary_greater_equal( Object* lvalue, Object* rvalue )
 	params.emplace_back( Parameter::CreateRuntime( rvalue->QualifiedTypename(), rvalue->getValue(), rvalue->getReference() ) );
 
 	Object tmp;
-	lvalue->execute( &tmp, "operator>=", params );
+	executeOperator( lvalue, "operator>=", params, &tmp );
 	return isTrue( tmp );
 }
 
@@ -515,7 +526,7 @@ bool operator_binary_less( Object* lvalue, Object* rvalue )
 	params.emplace_back( Parameter::CreateRuntime( rvalue->QualifiedTypename(), rvalue->getValue(), rvalue->getReference() ) );
 
 	Object tmp;
-	lvalue->execute( &tmp, "operator<", params );
+	executeOperator( lvalue, "operator<", params, &tmp );
 	return isTrue( tmp );
 }
 
@@ -567,7 +578,7 @@ bool operator_binary_less_equal( Object* lvalue, Object* rvalue )
 	params.emplace_back( Parameter::CreateRuntime( rvalue->QualifiedTypename(), rvalue->getValue(), rvalue->getReference() ) );
 
 	Object tmp;
-	lvalue->execute( &tmp, "operator<=", params );
+	executeOperator( lvalue, "operator<=", params, &tmp );
 	return isTrue( tmp );
 }
 
-- 
2.43.0


From 85c79d36e58ff2caa570582bd0bdafa505b1220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:01 +0000
Subject: [PATCH 10/89] fix: provide exception data when the validation of an
 object fails

The validate operator raised an exception without any data. It could not be
caught by type, and an uncaught one crashed the interpreter.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index f5d2e79..9813adb 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -569,6 +569,14 @@ void TreeInterpreter::evaluateUnaryExpression(UnaryExpression* exp, Runtime::Obj
 	else {
 		evaluate(exp->mExpression, result);
 
+		if ( exp->mOperation.type() == Token::Type::OPERATOR_VALIDATE && !result->isValid() ) {
+			// provide the exception that is thrown by a failed validation
+			auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
+			data->setValue( std::string("NullPointerException: ") + printExpression(exp->mExpression) );
+
+			mThread->exception() = Runtime::ExceptionData(data);
+		}
+
 		switch ( exp->mOperation.type() ) {
 			// boolean expressions
 			// {
-- 
2.43.0


From 1c321b85aae99654b9c0e189a7caa2afe6adf203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 11/89] fix: use default values of parameters that follow an
 object parameter

A parameter that was left out of a call took over the reference of the last
object passed before it instead of its own default value.
---
 Projects/Core/Core/Common/Method.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..f349d94 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,10 +295,9 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
 		// initialize parameter with default value
+		Runtime::Reference ref;
 		auto value = sigIt->value();
 
 		if ( paramIt != params.end() ) {
-- 
2.43.0


From 92f9f88f2a2b472306e435e684000acd1b8c9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:05 +0000
Subject: [PATCH 12/89] fix: keep a pending return value while a finally block
 runs

A return statement inside a finally block that was abandoned because of an
exception replaced the value of the return that was already under way.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9813adb..b6d2321 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1427,11 +1427,15 @@ void TreeInterpreter::visitTry(TryStatement* node)
 
 		// exceptions handled inside the finally-block must not replace a pending one
 		const Runtime::ExceptionData pendingException = mThread->exception();
+		// the same applies to a return value and a return statement that has been abandoned
+		Runtime::Object pendingResult;
+		pendingResult = mFrame->returnValue();
 
 		visitStatements(node->mFinallyBlock);
 
 		if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 			mThread->exception(pendingException);
+			mFrame->returnValue() = pendingResult;
 		}
 	}
 
-- 
2.43.0


From 8b6794948b4b0198ee363c688332c7f1cc1e79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:10 +0000
Subject: [PATCH 13/89] fix: release a thrown object once the exception has
 been handled

Thrown values were never released. The destructor of an object that had been
thrown did not run at all, not even at the end of the program.
---
 Projects/Core/Core/Runtime/ExceptionData.cpp     |  7 ++-----
 Projects/Core/Core/Runtime/ExceptionData.h       |  3 ++-
 Projects/Core/Core/VirtualMachine/Controller.cpp |  3 ++-
 Projects/Core/Core/VirtualMachine/Threads.cpp    | 12 ++++++++++--
 Projects/Core/Core/VirtualMachine/Threads.h      |  1 +
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Runtime/ExceptionData.cpp b/Projects/Core/Core/Runtime/ExceptionData.cpp
index 26f90c3..a9a6377 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.cpp
+++ b/Projects/Core/Core/Runtime/ExceptionData.cpp
@@ -14,10 +14,7 @@ namespace Slang {
 namespace Runtime {
 
 
-ExceptionData::ExceptionData()
-: mData( nullptr )
-{
-}
+ExceptionData::ExceptionData() = default;
 
 ExceptionData::ExceptionData(Object* data, Common::Position position, std::string stackTrace)
 : mData(data),
@@ -28,7 +25,7 @@ ExceptionData::ExceptionData(Object* data, Common::Position position, std::strin
 
 Object* ExceptionData::getData() const
 {
-	return mData;
+	return mData.get();
 }
 
 const Common::Position& ExceptionData::getPosition() const
diff --git a/Projects/Core/Core/Runtime/ExceptionData.h b/Projects/Core/Core/Runtime/ExceptionData.h
index df5bef6..872b5c0 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.h
+++ b/Projects/Core/Core/Runtime/ExceptionData.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <memory>
 
 // Project includes
 #include <Core/Common/Position.h>
@@ -31,7 +32,7 @@ public:
 	const std::string& getStackTrace() const;
 
 private:
-	Object *mData;
+	std::shared_ptr<Object> mData;
 	Common::Position mPosition;
 	std::string mStackTrace;
 };
diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index fc7a2f6..9c497d5 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -27,7 +27,8 @@ void Controller::deinit()
 {
 	assert(mPhase > Phase::Startup);
 
-	// release all global objects as long as everything their destructors may use is still available
+	// release all exceptions and global objects as long as everything their destructors may use is still available
+	mThreads->clearExceptions();
 	mGlobalScope->clearObjects();
 
 	delete mGlobalScope;
diff --git a/Projects/Core/Core/VirtualMachine/Threads.cpp b/Projects/Core/Core/VirtualMachine/Threads.cpp
index 2af072c..029f55c 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.cpp
+++ b/Projects/Core/Core/VirtualMachine/Threads.cpp
@@ -74,12 +74,13 @@ Runtime::ExceptionData& Thread::exception()
 
 void Thread::exception(Runtime::ExceptionData data)
 {
-	mExceptionData = std::move(data);
+	// the previous exception is released last because this may execute a destructor
+	std::swap(mExceptionData, data);
 }
 
 void Thread::exception(Runtime::Object* data, const Common::Position& position)
 {
-	mExceptionData = Runtime::ExceptionData(data, position, stackTrace());
+	exception(Runtime::ExceptionData(data, position, stackTrace()));
 }
 
 StackFrame* Thread::frame(FrameId frameId) const
@@ -156,6 +157,13 @@ std::string Thread::stackTrace() const
 }
 
 
+void Threads::clearExceptions()
+{
+	for ( auto& thread : mThreads ) {
+		thread.second->exception(Runtime::ExceptionData());
+	}
+}
+
 Thread* Threads::createThread()
 {
 	auto* t = new Thread(mThreads.size());
diff --git a/Projects/Core/Core/VirtualMachine/Threads.h b/Projects/Core/Core/VirtualMachine/Threads.h
index abf5826..d37a24b 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.h
+++ b/Projects/Core/Core/VirtualMachine/Threads.h
@@ -98,6 +98,7 @@ public:
 	void init();
 
 public:
+	void clearExceptions();
 	Thread* createThread();
 	void deleteThread(ThreadId id);
 	Thread* getThread(ThreadId id) const;
-- 
2.43.0


From 42fddb5e5b3c4dad7e46e1afba74a2ae01832ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:23 +0000
Subject: [PATCH 14/89] fix: keep closed and failed file handles from being
 used

Closing a file left its handle in the table, so a later operation on it
used a freed stream. New handles were numbered by the table size, and
handle 0 (a failed open) was accepted as a null stream.
---
 Projects/Extensions/LIBC/stdio/fclose.h  | 5 ++++-
 Projects/Extensions/LIBC/stdio/fopen.h   | 2 +-
 Projects/Extensions/LIBC/stdio/stdio.cpp | 7 +++----
 Projects/Extensions/LIBC/stdio/stdio.hpp | 1 +
 Projects/Extensions/LIBC/stdio/tmpfile.h | 2 +-
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fclose.h b/Projects/Extensions/LIBC/stdio/fclose.h
index 0395365..d2c9652 100644
--- a/Projects/Extensions/LIBC/stdio/fclose.h
+++ b/Projects/Extensions/LIBC/stdio/fclose.h
@@ -46,7 +46,10 @@ public:
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
 
-		int fileResult = fclose(stdio_t::FileHandles[param_handle]);
+		FILE* fileHandle = stdio_t::FileHandles[param_handle];
+		stdio_t::FileHandles.erase(param_handle);
+
+		int fileResult = fclose(fileHandle);
 		if ( fileResult == -1 ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
diff --git a/Projects/Extensions/LIBC/stdio/fopen.h b/Projects/Extensions/LIBC/stdio/fopen.h
index e83874d..654f08a 100644
--- a/Projects/Extensions/LIBC/stdio/fopen.h
+++ b/Projects/Extensions/LIBC/stdio/fopen.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = fopen(param_filename.c_str(), param_accessmode.c_str());
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::NextHandle++;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 7e8210e..8af88c0 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -40,12 +40,13 @@ namespace LIBC {
 namespace stdio {
 
 
-stdio_t::FileHandles_t stdio_t::FileHandles;
-
 constexpr int32_t STDIN  = 1;
 constexpr int32_t STDOUT = 2;
 constexpr int32_t STDERR = 3;
 
+stdio_t::FileHandles_t stdio_t::FileHandles;
+int32_t                stdio_t::NextHandle = STDERR + 1;
+
 stdio_t::stdio_t()
 : AExtension( "stdio", "0.2.0" )
 {
@@ -68,8 +69,6 @@ void stdio_t::initialize( ExtensionNamespace* scope )
 	scope->define( "SEEK_CUR", new Runtime::Int32Type( "SEEK_CUR", SEEK_CUR ) );
 	scope->define( "SEEK_END", new Runtime::Int32Type( "SEEK_END", SEEK_END ) );
 
-	// nothing to do here
-	FileHandles[ 0 ]      = nullptr;
 	FileHandles[ STDIN ]  = stdin;
 	FileHandles[ STDOUT ] = stdout;
 	FileHandles[ STDERR ] = stderr;
diff --git a/Projects/Extensions/LIBC/stdio/stdio.hpp b/Projects/Extensions/LIBC/stdio/stdio.hpp
index 32ef80e..4c7ef05 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.hpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.hpp
@@ -60,6 +60,7 @@ public:
     typedef std::map<int /*file handle*/, FILE*> FileHandles_t;
 
     static FileHandles_t FileHandles;
+	static int32_t       NextHandle;
 
 public:
 	stdio_t();
diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index a4c112c..af89b02 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = tmpfile();
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::NextHandle++;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
-- 
2.43.0


From f0be66211fc839d703b91a14c7a3e9bf171e3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:58 +0000
Subject: [PATCH 15/89] fix: report errors while reading a file

fread never returns -1, so a failed read gave the script a default value
as if it had been read.
---
 Projects/Extensions/LIBC/stdio/fread.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fread.h b/Projects/Extensions/LIBC/stdio/fread.h
index 627cf2c..b6e6aa7 100644
--- a/Projects/Extensions/LIBC/stdio/fread.h
+++ b/Projects/Extensions/LIBC/stdio/fread.h
@@ -56,8 +56,8 @@ public:
 
 		bool value = false;
 
-		long size = fread(&value, 1, sizeof(bool), stdio_t::FileHandles[param_handle]);
-		if ( size == -1 ) {    // error while reading
+		size_t size = fread(&value, 1, sizeof(bool), stdio_t::FileHandles[param_handle]);
+		if ( size != sizeof(bool) && ferror(stdio_t::FileHandles[param_handle]) ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading file");
 		}
 
@@ -94,8 +94,8 @@ public:
 
 		double value = 0.0;
 
-		long size = fread(&value, 1, sizeof(double), stdio_t::FileHandles[param_handle]);
-		if ( size == -1 ) {    // error while reading
+		size_t size = fread(&value, 1, sizeof(double), stdio_t::FileHandles[param_handle]);
+		if ( size != sizeof(double) && ferror(stdio_t::FileHandles[param_handle]) ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading file");
 		}
 
@@ -132,8 +132,8 @@ public:
 
 		float value = 0.f;
 
-		long size = fread(&value, 1, sizeof(float), stdio_t::FileHandles[param_handle]);
-		if ( size == -1 ) {    // error while reading
+		size_t size = fread(&value, 1, sizeof(float), stdio_t::FileHandles[param_handle]);
+		if ( size != sizeof(float) && ferror(stdio_t::FileHandles[param_handle]) ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading file");
 		}
 
@@ -170,8 +170,8 @@ public:
 
 		int value = 0;
 
-		long size = fread(&value, 1, sizeof(int), stdio_t::FileHandles[param_handle]);
-		if ( size == -1 ) {    // error while reading
+		size_t size = fread(&value, 1, sizeof(int), stdio_t::FileHandles[param_handle]);
+		if ( size != sizeof(int) && ferror(stdio_t::FileHandles[param_handle]) ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading file");
 		}
 
@@ -213,9 +213,9 @@ public:
 		while ( param_length > 0 || param_length == -1 ) {
 			char charValue;
 
-			long size = fread(&charValue, 1, sizeof(char), stdio_t::FileHandles[param_handle]);
-			if ( size == -1 ) {    // error while reading
-				return Runtime::ControlFlow::Throw;
+			size_t size = fread(&charValue, 1, sizeof(char), stdio_t::FileHandles[param_handle]);
+			if ( size == 0 && ferror(stdio_t::FileHandles[param_handle]) ) {    // error while reading
+				throw Runtime::Exceptions::RuntimeException("error while reading file");
 			}
 			if ( size == 0 ) {	// EOF reached
 				break;
-- 
2.43.0


From 8a1ca1211fb4f780e49f8b99ba44638ef230c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 16/89] fix: write strings that contain zero bytes completely

fwrites and fputs stopped at the first zero byte and reported success.
---
 Projects/Extensions/LIBC/stdio/fputs.h  | 4 +++-
 Projects/Extensions/LIBC/stdio/fwrite.h | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fputs.h b/Projects/Extensions/LIBC/stdio/fputs.h
index 25b48e1..0e6846b 100644
--- a/Projects/Extensions/LIBC/stdio/fputs.h
+++ b/Projects/Extensions/LIBC/stdio/fputs.h
@@ -53,7 +53,9 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		*result = Runtime::Int32Type( fputs( param_str.c_str(), stdio_t::FileHandles[ param_stream ] ) );
+		auto size = fwrite( param_str.data(), sizeof( char ), param_str.size(), stdio_t::FileHandles[ param_stream ] );
+
+		*result = Runtime::Int32Type( size == param_str.size() ? 1 : EOF );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/stdio/fwrite.h b/Projects/Extensions/LIBC/stdio/fwrite.h
index e2ad4c5..e57ef2a 100644
--- a/Projects/Extensions/LIBC/stdio/fwrite.h
+++ b/Projects/Extensions/LIBC/stdio/fwrite.h
@@ -209,9 +209,8 @@ public:
 
 		std::string param_value = (*it++).value().toStdString();
 
-		//long size = fwrite(&param_value, sizeof(char), strlen(param_value.c_str()), stdio_t::FileHandles[param_handle]);
-		long size = fputs(param_value.c_str(), stdio_t::FileHandles[param_handle]);
-		if ( size == -1 ) {    // error while writing
+		size_t size = fwrite(param_value.data(), sizeof(char), param_value.size(), stdio_t::FileHandles[param_handle]);
+		if ( size != param_value.size() ) {    // error while writing
 			throw Runtime::Exceptions::RuntimeException("error while writing file");
 		}
 
-- 
2.43.0


From 23280085dc8ea1ee0cc9044878936fa6a4b336f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:02 +0000
Subject: [PATCH 17/89] fix: make fgets return exactly one line

A size larger than the internal buffer dropped the data read first, zero
bytes cut the line short, and read errors went unnoticed.
---
 Projects/Extensions/LIBC/stdio/fgets.h | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fgets.h b/Projects/Extensions/LIBC/stdio/fgets.h
index 8b963a2..7685ddf 100644
--- a/Projects/Extensions/LIBC/stdio/fgets.h
+++ b/Projects/Extensions/LIBC/stdio/fgets.h
@@ -26,8 +26,6 @@ namespace stdio {
 
 class FGETS : public ExtensionMethod
 {
-	static constexpr int32_t READ_SIZE = 1024;
-
 public:
 	FGETS()
 	: ExtensionMethod( 0, "fgets", Designtime::StringType::TYPENAME )
@@ -53,21 +51,28 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		int32_t remainingSize{0};
-		while ( remainingSize < param_size ) {
-			auto readSize = param_size - remainingSize;
-			if ( readSize > READ_SIZE ) {
-				readSize = READ_SIZE;
-			}
+		auto* stream = stdio_t::FileHandles[ param_handle ];
+
+		std::string value;
+		for ( int32_t remainingSize = param_size - 1; remainingSize > 0; --remainingSize ) {
+			auto ch = fgetc( stream );
+			if ( ch == EOF ) {
+				if ( ferror( stream ) ) {
+					throw Runtime::Exceptions::RuntimeException( "error while reading file" );
+				}
 
-			char stream[READ_SIZE];
-			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) != nullptr ) {
-				*result = Runtime::StringType( std::string( stream ) );
+				break;
 			}
 
-			remainingSize += readSize;
+			value += static_cast<char>( ch );
+
+			if ( ch == '\n' ) {
+				break;
+			}
 		}
 
+		*result = Runtime::StringType( value );
+
 		return Runtime::ControlFlow::Normal;
 	}
 };
-- 
2.43.0


From 8701b1695ae59690901e932704090c374ed889b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:09 +0000
Subject: [PATCH 18/89] fix: report a failing rewind

Data that could not be flushed was lost without any notice.
---
 Projects/Extensions/LIBC/stdio/rewind.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/stdio/rewind.h b/Projects/Extensions/LIBC/stdio/rewind.h
index 2e6e813..b5632f0 100644
--- a/Projects/Extensions/LIBC/stdio/rewind.h
+++ b/Projects/Extensions/LIBC/stdio/rewind.h
@@ -54,7 +54,10 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		rewind( stdio_t::FileHandles[param_handle] );
+		if ( fseek( stdio_t::FileHandles[param_handle], 0L, SEEK_SET ) == -1 ) {
+			throw Runtime::Exceptions::RuntimeException( "error while seeking file" );
+		}
+		clearerr( stdio_t::FileHandles[param_handle] );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From d2adef3016fdfa02fcb8beea2587a9375c8eeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:14 +0000
Subject: [PATCH 19/89] fix: forget the handle of a file even if closing it
 fails

The file object kept a handle that was no longer open.
---
 Projects/Library/System/IO/File.os | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index e5c8088..4459491 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -53,11 +53,11 @@ public namespace System.IO {
 				return true;
 			}
 
-			int result = fclose( mHandle );
+			int handle = mHandle;
 
 			cleanup();
 
-			return result == 0;
+			return fclose( handle ) == 0;
 		}
 
 		public string getAccessMode() const {
-- 
2.43.0


From c65efd1a9fe4b2e6fab8c74242a2626bbdbdd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:20 +0000
Subject: [PATCH 20/89] fix: let File.open return false if the file cannot be
 opened

---
 Projects/Library/System/IO/File.os | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index 4459491..1c4b375 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -94,6 +94,11 @@ public namespace System.IO {
 			mFilename   = filename;
 			mHandle     = fopen( mFilename, mAccessMode );
 
+			if ( !mHandle ) {
+				cleanup();
+				return false;
+			}
+
 			fseek( mHandle, 0, SEEK_END );
 			mSize = ftell( mHandle );
 			fseek( mHandle, 0, SEEK_SET );
-- 
2.43.0


From ebf77322d244659a0942ebec80e03350055e9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:25 +0000
Subject: [PATCH 21/89] fix: let File.write return true on success

---
 Projects/Library/System/IO/File.os | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index 1c4b375..30f33d5 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -139,23 +139,23 @@ public namespace System.IO {
 		}
 
 		public bool write( bool value ) {
-			return fwriteb( mHandle, value ) == 0;
+			return fwriteb( mHandle, value ) == 1;
 		}
 
 		public bool write( double value ) {
-			return fwrited( mHandle, value ) == 0;
+			return fwrited( mHandle, value ) == 1;
 		}
 
 		public bool write( float value ) {
-			return fwritef( mHandle, value ) == 0;
+			return fwritef( mHandle, value ) == 1;
 		}
 
 		public bool write( int value ) {
-			return fwritei( mHandle, value ) == 0;
+			return fwritei( mHandle, value ) == 1;
 		}
 
 		public bool write( string value ) {
-			return fwrites( mHandle, value ) == 0;
+			return fwrites( mHandle, value ) == strlen( value );
 		}
 
 		private string mAccessMode;
-- 
2.43.0


From 13e49c99e0912c0dcaf1535b5ea633592dd3aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:19 +0000
Subject: [PATCH 22/89] fix: release the operand of a throw whose evaluation
 fails

When the expression of a throw statement raised an exception itself, the
object prepared for the new exception was never released.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b6d2321..9eaef89 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -4,6 +4,7 @@
 
 // Library includes
 #include <cstring>
+#include <memory>
 
 // Project includes
 #include <Core/Common/Exceptions.h>
@@ -1349,11 +1350,11 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 {
 	// check if we are throwing new exception or if we're just rethrowing our previous one
 	if ( node->mExpression ) {
-		Runtime::Object* data = mRepository->createInstance(ANONYMOUS_OBJECT, ANONYMOUS_OBJECT, PrototypeConstraints());
-		tryControl(evaluate(node->mExpression, data));
+		std::unique_ptr<Runtime::Object> data(mRepository->createInstance(ANONYMOUS_OBJECT, ANONYMOUS_OBJECT, PrototypeConstraints()));
+		tryControl(evaluate(node->mExpression, data.get()));
 
 		// "throw" a new expression
-		mThread->exception(data, node->token().position());
+		mThread->exception(data.release(), node->token().position());
 	}
 
 	mControlFlow = Runtime::ControlFlow::Throw;
-- 
2.43.0


From 8332ad63c817f590ccbada5f585d2848805c69e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 23/89] fix: read complete values from sockets

A read that the network split or a signal interrupted returned a value
built from the bytes that happened to be there. The same happened when the
connection ended. Such reads are now continued, and a value that cannot be
completed raises an exception. An error while reading a string ended the
script because no exception was provided for it.
---
 Projects/Extensions/System/Network/Read.h | 53 +++++++++++++++--------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/Projects/Extensions/System/Network/Read.h b/Projects/Extensions/System/Network/Read.h
index 0b0fa2c..fc7ba34 100644
--- a/Projects/Extensions/System/Network/Read.h
+++ b/Projects/Extensions/System/Network/Read.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <cerrno>
 
 // Project includes
 #include "Defines.h"
@@ -19,6 +20,32 @@ namespace System {
 namespace Network {
 
 
+/*
+ * Reads exactly 'size' bytes; transfers that are interrupted or split by the network are continued
+ */
+inline void readFully(int handle, void* buffer, size_t size)
+{
+	auto* position = static_cast<char*>( buffer );
+
+	while ( size > 0 ) {
+		auto count = read(handle, position, size);
+		if ( count < 0 ) {
+			if ( errno == EINTR ) {
+				continue;
+			}
+
+			throw Runtime::Exceptions::RuntimeException("error while reading handle");
+		}
+		if ( count == 0 ) {	// EOF reached before the value was complete
+			throw Runtime::Exceptions::RuntimeException("unexpected end while reading handle");
+		}
+
+		position += count;
+		size -= static_cast<size_t>( count );
+	}
+}
+
+
 class ReadBool : public ExtensionMethod
 {
 public:
@@ -41,10 +68,7 @@ public:
 
 		bool value = false;
 
-		long size = read(param_handle, &value, sizeof(bool));
-		if ( size == -1 ) {    // error while reading
-			throw Runtime::Exceptions::RuntimeException("error while reading handle");
-		}
+		readFully(param_handle, &value, sizeof(bool));
 
 		*result = Runtime::BoolType(value);
 
@@ -75,10 +99,7 @@ public:
 
 		double value = 0.0;
 
-		long size = read(param_handle, &value, sizeof(double));
-		if ( size == -1 ) {    // error while reading
-			throw Runtime::Exceptions::RuntimeException("error while reading handle");
-		}
+		readFully(param_handle, &value, sizeof(double));
 
 		*result = Runtime::DoubleType(value);
 
@@ -109,10 +130,7 @@ public:
 
 		float value = 0.f;
 
-		long size = read(param_handle, &value, sizeof(float));
-		if ( size == -1 ) {    // error while reading
-			throw Runtime::Exceptions::RuntimeException("error while reading handle");
-		}
+		readFully(param_handle, &value, sizeof(float));
 
 		*result = Runtime::FloatType(value);
 
@@ -143,10 +161,7 @@ public:
 
 		int value = 0;
 
-		long size = read(param_handle, &value, sizeof(int));
-		if ( size == -1 ) {    // error while reading
-			throw Runtime::Exceptions::RuntimeException("error while reading handle");
-		}
+		readFully(param_handle, &value, sizeof(int));
 
 		*result = Runtime::Int32Type(value);
 
@@ -184,7 +199,11 @@ public:
 
 			long size = read(param_handle, &charValue, sizeof(char));
 			if ( size == -1 ) {    // error while reading
-				return Runtime::ControlFlow::Throw;
+				if ( errno == EINTR ) {
+					continue;
+				}
+
+				throw Runtime::Exceptions::RuntimeException("error while reading handle");
 			}
 			if ( size == 0 ) {	// EOF reached
 				break;
-- 
2.43.0


From ea42a0dc35acd7b8feb8860dfb3dddd802148bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 24/89] fix: write complete values to sockets

A write that the network split or a signal interrupted lost the rest of the
value, and writing to a closed connection ended the whole process. Writes are
now continued until the value is complete, and a closed connection is
reported with an exception like any other error.
---
 Projects/Extensions/System/Network/Write.h | 63 +++++++++++++++-------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/Projects/Extensions/System/Network/Write.h b/Projects/Extensions/System/Network/Write.h
index fc206a8..086cfcd 100644
--- a/Projects/Extensions/System/Network/Write.h
+++ b/Projects/Extensions/System/Network/Write.h
@@ -4,6 +4,10 @@
 
 
 // Library includes
+#include <cerrno>
+#ifndef _WIN32
+#	include <sys/socket.h>
+#endif
 
 // Project includes
 #include "Defines.h"
@@ -19,6 +23,40 @@ namespace System {
 namespace Network {
 
 
+/*
+ * Writes exactly 'size' bytes; transfers that are interrupted or split by the network are continued
+ */
+inline long writeFully(int handle, const void* buffer, size_t size)
+{
+	const auto* position = static_cast<const char*>( buffer );
+	size_t remaining = size;
+
+	while ( remaining > 0 ) {
+#ifdef MSG_NOSIGNAL
+		// a closed connection is reported as error instead of ending the process
+		auto count = send(handle, position, remaining, MSG_NOSIGNAL);
+		if ( count < 0 && errno == ENOTSOCK ) {
+			count = write(handle, position, remaining);
+		}
+#else
+		auto count = write(handle, position, remaining);
+#endif
+		if ( count < 0 ) {
+			if ( errno == EINTR ) {
+				continue;
+			}
+
+			throw Runtime::Exceptions::RuntimeException("error while writing handle");
+		}
+
+		position += count;
+		remaining -= static_cast<size_t>( count );
+	}
+
+	return static_cast<long>( size );
+}
+
+
 class WriteBool : public ExtensionMethod
 {
 public:
@@ -42,10 +80,7 @@ public:
 
 		bool value = (*it++).value().toBool();
 
-		long size = write(param_handle, &value, sizeof(bool));
-		if ( size == -1 ) {    // error while writing
-			throw Runtime::Exceptions::RuntimeException("error while writing handle");
-		}
+		long size = writeFully(param_handle, &value, sizeof(bool));
 
 		*result = Runtime::Int32Type( static_cast<int32_t>( size ) );
 
@@ -77,10 +112,7 @@ public:
 
 		double value = (*it++).value().toDouble();
 
-		long size = write(param_handle, &value, sizeof(double));
-		if ( size == -1 ) {    // error while writing
-			throw Runtime::Exceptions::RuntimeException("error while writing handle");
-		}
+		long size = writeFully(param_handle, &value, sizeof(double));
 
 		*result = Runtime::Int32Type( static_cast<int32_t>( size ) );
 
@@ -112,10 +144,7 @@ public:
 
 		float value = (*it++).value().toFloat();
 
-		long size = write(param_handle, &value, sizeof(float));
-		if ( size == -1 ) {    // error while writing
-			throw Runtime::Exceptions::RuntimeException("error while writing handle");
-		}
+		long size = writeFully(param_handle, &value, sizeof(float));
 
 		*result = Runtime::Int32Type( static_cast<int32_t>( size ) );
 
@@ -147,10 +176,7 @@ public:
 
 		int value = (*it++).value().toInt();
 
-		long size = write(param_handle, &value, sizeof(int));
-		if ( size == -1 ) {    // error while writing
-			throw Runtime::Exceptions::RuntimeException("error while writing handle");
-		}
+		long size = writeFully(param_handle, &value, sizeof(int));
 
 		*result = Runtime::Int32Type( static_cast<int32_t>( size ) );
 
@@ -185,10 +211,7 @@ public:
 		long size = 0;
 
 		while ( count < value.size() ) {
-			size = write(param_handle, &value[count], sizeof(char));
-			if ( size == -1 ) {    // error while writing
-				throw Runtime::Exceptions::RuntimeException("error while writing handle");
-			}
+			size = writeFully(param_handle, &value[count], sizeof(char));
 
 			count++;
 		}
-- 
2.43.0


From 39e5a88f819e733344ee12d74e8b2c92fb6f7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 25/89] fix: bind and connect sockets to the given address and
 port

The port was passed in host byte order, so a different port was used, and
IPv6 addresses were stored in a structure too small for them.
---
 Projects/Extensions/System/Network/Bind.h    | 39 +++++++++++++-------
 Projects/Extensions/System/Network/Connect.h | 39 +++++++++++++-------
 2 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/Projects/Extensions/System/Network/Bind.h b/Projects/Extensions/System/Network/Bind.h
index 3dc4912..479b82e 100644
--- a/Projects/Extensions/System/Network/Bind.h
+++ b/Projects/Extensions/System/Network/Bind.h
@@ -75,34 +75,45 @@ private:
 			throw Runtime::Exceptions::RuntimeException("_sa_port symbol not found");
 		}
 
-		sockaddr_in serv_addr;
+		sockaddr_storage serv_addr = {};
+		size_t addr_size = 0;
 		sa_family_t addr_family = static_cast<sa_family_t>( static_cast<Runtime::Int32Type*>( familySymbol )->getValue().toInt() );
 
-		// set sa_family
+#ifdef _MSC_VER
+#else
+		auto address = static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString();
+		auto port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+#endif
+
+		// set sa_family, sa_address and sa_port
 		switch ( addr_family ) {
 			case AF_INET: {
-				serv_addr.sin_family = AF_INET;
+				auto* addr = reinterpret_cast<sockaddr_in*>( &serv_addr );
+				addr_size = sizeof( sockaddr_in );
+
+				addr->sin_family = AF_INET;
+#ifdef _MSC_VER
+#else
+				inet_pton(AF_INET, address.c_str(), &addr->sin_addr);
+				addr->sin_port = port;
+#endif
 			} break;
 #ifdef _MSC_VER
 #else
 			case AF_INET6: {
-				serv_addr.sin_family = AF_INET6;
+				auto* addr = reinterpret_cast<sockaddr_in6*>( &serv_addr );
+				addr_size = sizeof( sockaddr_in6 );
+
+				addr->sin6_family = AF_INET6;
+				inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr);
+				addr->sin6_port = port;
 			} break;
 #endif
 			default:
 				throw Common::Exceptions::Exception("unsupported socket address type provided!");
 		}
 
-#ifdef _MSC_VER
-#else
-		// set sa_address
-		inet_pton(serv_addr.sin_family, static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString().c_str(), &serv_addr.sin_addr);
-
-		// set sa_port
-		serv_addr.sin_port = static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() );
-#endif
-
-		return bind(param_sockfd, (sockaddr *) &serv_addr, sizeof(serv_addr));
+		return bind(param_sockfd, (sockaddr *) &serv_addr, static_cast<socklen_t>( addr_size ));
 	}
 };
 
diff --git a/Projects/Extensions/System/Network/Connect.h b/Projects/Extensions/System/Network/Connect.h
index c50a4c3..ca8b890 100644
--- a/Projects/Extensions/System/Network/Connect.h
+++ b/Projects/Extensions/System/Network/Connect.h
@@ -70,34 +70,45 @@ private:
 			throw Runtime::Exceptions::RuntimeException("_sa_port symbol not found");
 		}
 
-		sockaddr_in serv_addr;
+		sockaddr_storage serv_addr = {};
+		size_t addr_size = 0;
 		sa_family_t addr_family = static_cast<sa_family_t>( static_cast<Runtime::Int32Type*>(familySymbol)->getValue().toInt() );
 
-		// set sa_family
+#ifdef _MSC_VER
+#else
+		auto address = static_cast<Runtime::StringType*>(addressSymbol)->getValue().toStdString();
+		auto port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+#endif
+
+		// set sa_family, sa_address and sa_port
 		switch ( addr_family ) {
 			case AF_INET: {
-				serv_addr.sin_family = AF_INET;
+				auto* addr = reinterpret_cast<sockaddr_in*>( &serv_addr );
+				addr_size = sizeof( sockaddr_in );
+
+				addr->sin_family = AF_INET;
+#ifdef _MSC_VER
+#else
+				inet_pton(AF_INET, address.c_str(), &addr->sin_addr);
+				addr->sin_port = port;
+#endif
 			} break;
 #ifdef _MSC_VER
 #else
 			case AF_INET6: {
-				serv_addr.sin_family = AF_INET6;
+				auto* addr = reinterpret_cast<sockaddr_in6*>( &serv_addr );
+				addr_size = sizeof( sockaddr_in6 );
+
+				addr->sin6_family = AF_INET6;
+				inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr);
+				addr->sin6_port = port;
 			} break;
 #endif
 			default:
 				throw Common::Exceptions::Exception("unsupported socket address type provided!");
 		}
 
-#ifdef _MSC_VER
-#else
-		// set sa_address
-		inet_pton(serv_addr.sin_family, static_cast<Runtime::StringType*>(addressSymbol)->getValue().toStdString().c_str(), &serv_addr.sin_addr);
-
-		// set sa_port
-		serv_addr.sin_port = static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() );
-#endif
-
-		return connect(param_sockfd, (sockaddr *) &serv_addr, sizeof(serv_addr));
+		return connect(param_sockfd, (sockaddr *) &serv_addr, static_cast<socklen_t>( addr_size ));
 	}
 };
 
-- 
2.43.0


From fbdf99720bfb14095b504a0e60de0c6997c876bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 26/89] fix: report failing set-up of server sockets

The constructor ignored that no socket could be created, Bind never
reported success, and after a failed Accept data was read from an invalid
handle.
---
 .../Library/System/Network/ServerSocket.os     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Projects/Library/System/Network/ServerSocket.os b/Projects/Library/System/Network/ServerSocket.os
index 9152345..6328e23 100644
--- a/Projects/Library/System/Network/ServerSocket.os
+++ b/Projects/Library/System/Network/ServerSocket.os
@@ -74,7 +74,7 @@ public object ServerSocket {
 			throw new Exception("endpoint not set");
 		}
 
-		return bind(mMasterSocket, ISocketAddress mEndpoint) > 0;
+		return bind(mMasterSocket, ISocketAddress mEndpoint) == 0;
 	}
 
 	/*
@@ -119,8 +119,12 @@ public object ServerSocket {
 		return mEndpoint._sa_port;
 	}
 
-	private void Init() modify {
+	private void Init() modify throws {
 	    mMasterSocket = socket(AF_INET, SOCK_STREAM, 0);
+
+		if ( mMasterSocket == -1 ) {
+			throw new Exception("socket initialisation failed");
+		}
 	}
 
 	public int Listen() modify {
@@ -128,7 +132,7 @@ public object ServerSocket {
 	}
 
 	public bool ReadBool() const throws {
-		if ( !mListenerSocket ) {
+		if ( mListenerSocket <= 0 ) {
 			throw new Exception("not connected");
 		}
 
@@ -136,7 +140,7 @@ public object ServerSocket {
 	}
 
 	public double ReadDouble() const throws {
-		if ( !mListenerSocket ) {
+		if ( mListenerSocket <= 0 ) {
 			throw new Exception("not connected");
 		}
 
@@ -144,7 +148,7 @@ public object ServerSocket {
 	}
 
 	public float ReadFloat() const throws {
-		if ( !mListenerSocket ) {
+		if ( mListenerSocket <= 0 ) {
 			throw new Exception("not connected");
 		}
 
@@ -152,7 +156,7 @@ public object ServerSocket {
 	}
 
 	public int ReadInt() const throws {
-		if ( !mListenerSocket ) {
+		if ( mListenerSocket <= 0 ) {
 			throw new Exception("not connected");
 		}
 
@@ -160,7 +164,7 @@ public object ServerSocket {
 	}
 
 	public string ReadString(int length = 1) const throws {
-		if ( !mListenerSocket ) {
+		if ( mListenerSocket <= 0 ) {
 			throw new Exception("not connected");
 		}
 
-- 
2.43.0


From 6d63a1dc057e2fa273c0bee29f71facab861eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 27/89] fix: keep environment variables set with putenv

The environment referred to memory that was released when putenv returned.
---
 Projects/Extensions/System/PutEnv.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Projects/Extensions/System/PutEnv.h b/Projects/Extensions/System/PutEnv.h
index 460accd..c80f153 100644
--- a/Projects/Extensions/System/PutEnv.h
+++ b/Projects/Extensions/System/PutEnv.h
@@ -41,7 +41,18 @@ public:
 
 		std::string param_name = (*it++).value().toStdString();
 
+#ifdef _WIN32
 		*result = Runtime::Int32Type(putenv(const_cast<char*>(param_name.c_str())));
+#else
+		// putenv keeps a pointer to the string it is given, which does not outlive this call
+		auto separator = param_name.find('=');
+		if ( separator == std::string::npos ) {
+			*result = Runtime::Int32Type(unsetenv(param_name.c_str()));
+		}
+		else {
+			*result = Runtime::Int32Type(setenv(param_name.substr(0, separator).c_str(), param_name.substr(separator + 1).c_str(), 1));
+		}
+#endif
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 24187e5ee1deb8e9397fa1673158d10b0c7813c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 28/89] fix: return the complete output of system commands

Output that contains zero bytes was cut off, and an error while reading it
made the call wait forever.
---
 Projects/Extensions/System/System.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Projects/Extensions/System/System.h b/Projects/Extensions/System/System.h
index 88b6565..eb90f70 100644
--- a/Projects/Extensions/System/System.h
+++ b/Projects/Extensions/System/System.h
@@ -64,10 +64,13 @@ public:
 			throw std::runtime_error("popen() failed!");
 		}
 
-		while ( !feof(pipe.get()) ) {
-			if ( fgets(buffer.data(), 128, pipe.get()) != nullptr ) {
-				resultStr += buffer.data();
-			}
+		size_t size = 0;
+		while ( (size = fread(buffer.data(), 1, buffer.size(), pipe.get())) > 0 ) {
+			resultStr.append(buffer.data(), size);
+		}
+
+		if ( ferror(pipe.get()) ) {
+			throw std::runtime_error("error while reading the output of a command");
 		}
 #else
 		std::string resultStr = "";
@@ -83,11 +86,14 @@ public:
 
 		try {
 			char buffer[128];
+			size_t size = 0;
+
+			while ( (size = fread(buffer, 1, sizeof(buffer), pipe)) > 0 ) {
+				resultStr.append(buffer, size);
+			}
 
-			while ( !feof(pipe) ) {
-				if ( fgets(buffer, 128, pipe) != nullptr ) {
-					resultStr += buffer;
-				}
+			if ( ferror(pipe) ) {
+				throw std::runtime_error("error while reading the output of a command");
 			}
 		}
 		catch ( ... ) {
-- 
2.43.0


From 0d86e746347c95c774e0a92ebeef857d1e0486f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:19 +0000
Subject: [PATCH 29/89] fix: forget the handle of a closed socket

Closing a server socket twice, or connecting a closed client socket again,
used a handle that may already belong to another socket.
---
 Projects/Library/System/Network/ClientSocket.os | 1 +
 Projects/Library/System/Network/ServerSocket.os | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Network/ClientSocket.os b/Projects/Library/System/Network/ClientSocket.os
index 62246cb..7532a71 100644
--- a/Projects/Library/System/Network/ClientSocket.os
+++ b/Projects/Library/System/Network/ClientSocket.os
@@ -27,6 +27,7 @@ public object ClientSocket {
 			close(mSocket);
 
 			mIsConnected = false;
+			mSocket = -1;
 		}
 	}
 
diff --git a/Projects/Library/System/Network/ServerSocket.os b/Projects/Library/System/Network/ServerSocket.os
index 6328e23..b4b1d20 100644
--- a/Projects/Library/System/Network/ServerSocket.os
+++ b/Projects/Library/System/Network/ServerSocket.os
@@ -93,8 +93,11 @@ public object ServerSocket {
 	/*
 	 * Closes this socket
 	 */
-	public bool Close() throws {
-	    return close(mMasterSocket) == 0;
+	public bool Close() modify throws {
+		int handle = mMasterSocket;
+		mMasterSocket = -1;
+
+		return close(handle) == 0;
 	}
 
 	/*
-- 
2.43.0


From 9f4c3fde0319b1bc7249ac42f069bccd5e0be8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:45 +0000
Subject: [PATCH 30/89] fix: report when waitpid has no status to return

If waiting failed, or if no process had ended yet, the script received an
uninitialised value.
---
 Projects/Extensions/System/WaitPID.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/System/WaitPID.h b/Projects/Extensions/System/WaitPID.h
index 2270b76..3686c25 100644
--- a/Projects/Extensions/System/WaitPID.h
+++ b/Projects/Extensions/System/WaitPID.h
@@ -42,8 +42,11 @@ public:
 		auto param_pid = (*it++).value().toInt();
 		auto param_options = (*it++).value().toInt();
 
-		int status;
-		/*param_pid =*/ waitpid( param_pid, &status, param_options );
+		int status = 0;
+		if ( waitpid( param_pid, &status, param_options ) <= 0 ) {
+			// no process has ended or waiting failed
+			status = -1;
+		}
 
 		*result = Runtime::Int32Type( status );
 
-- 
2.43.0


From c86ad86a2342686de2c71ba9c17b581530b1743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:45 +0000
Subject: [PATCH 31/89] fix: write pending output before a process is forked

Buffered output was duplicated because parent and child both wrote it.
---
 Projects/Extensions/System/Fork.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Extensions/System/Fork.h b/Projects/Extensions/System/Fork.h
index 7036b24..aef2e2f 100644
--- a/Projects/Extensions/System/Fork.h
+++ b/Projects/Extensions/System/Fork.h
@@ -4,6 +4,8 @@
 
 
 // Library includes
+#include <cstdio>
+#include <iostream>
 #include <unistd.h>
 
 // Project includes
@@ -34,6 +36,10 @@ public:
 public:
 	Runtime::ControlFlow::E execute( const ParameterList& /*params*/, Runtime::Object* result )
 	{
+		// write all pending output, otherwise it would appear once for each process
+		std::cout.flush();
+		fflush(nullptr);
+
 		*result = Runtime::Int32Type(fork());
 
 		return Runtime::ControlFlow::Normal;
-- 
2.43.0


From 87a7f7cf40ca9715b1a65ec91429e7edacf5dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:45 +0000
Subject: [PATCH 32/89] fix: report files that cannot be opened while loading a
 script

A library file that could not be opened was treated as if it were empty.
---
 Projects/Core/Core/Designtime/Analyser.cpp           | 3 +++
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..8e67375 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -711,6 +711,9 @@ void Analyser::processFile(const std::string& filename)
 
 	// read file content
 	std::ifstream in(mFilename.c_str(), std::ios_base::binary);
+	if ( !in.is_open() ) {
+		throw Common::Exceptions::Exception("File '" + mFilename + "' could not be opened");
+	}
 
 	// start the real processing
 	processTokens(
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index bad8743..8b79ba9 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -223,6 +223,10 @@ Script* VirtualMachine::createScriptFromFile(const std::string& filename)
 
 	// open file
 	std::ifstream in(filename.c_str(), std::ios_base::binary);
+	if ( !in.is_open() ) {
+		OSerror("file '" + filename + "' could not be opened!");
+		throw Common::Exceptions::Exception("file '" + filename + "' could not be opened!");
+	}
 
 	// read file content
 	auto content = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
-- 
2.43.0


From f2539c2636143c0423d60d70d76061ddd6d902a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:53 +0000
Subject: [PATCH 33/89] fix: do not take a file that cannot be opened for a
 missing one

If a library existed in both forms and the newer one could not be opened,
the older one was used instead without any notice.
---
 Projects/Utils/Tools/Files.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Utils/Tools/Files.cpp b/Projects/Utils/Tools/Files.cpp
index 57e2e6e..2d99b38 100644
--- a/Projects/Utils/Tools/Files.cpp
+++ b/Projects/Utils/Tools/Files.cpp
@@ -12,6 +12,7 @@
 #	include <stdio.h>
 #endif
 #include <string>
+#include <sys/stat.h>
 
 // Project includes
 
@@ -35,9 +36,9 @@ bool exists(const std::string& filename)
     }
 #else
     // Fallback to traditional file check for older C++ versions
-    std::ifstream file( filename );
+    struct stat info;
 
-    return file.is_open() && file.good();
+    return stat( filename.c_str(), &info ) == 0;
 #endif
 }
 
-- 
2.43.0


From 704d052a02313f6a2a83c8e5520c11e98c0cd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:36 +0000
Subject: [PATCH 34/89] fix: close files a script left open when its virtual
 machine ends

Handles were kept in static tables and stayed open for the rest of the
process, and later scripts got other handle numbers than on their own.
---
 Projects/Extensions/LIBC/stdio/stdio.cpp | 13 +++++++++++++
 Projects/Extensions/LIBC/stdio/stdio.hpp |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 8af88c0..77fcf32 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -52,6 +52,19 @@ stdio_t::stdio_t()
 {
 }
 
+stdio_t::~stdio_t()
+{
+	// close all files the script has left open
+	for ( auto& handle : FileHandles ) {
+		if ( handle.first > STDERR ) {
+			fclose( handle.second );
+		}
+	}
+
+	FileHandles.clear();
+	NextHandle = STDERR + 1;
+}
+
 void stdio_t::initialize( ExtensionNamespace* scope )
 {
 	// constants
diff --git a/Projects/Extensions/LIBC/stdio/stdio.hpp b/Projects/Extensions/LIBC/stdio/stdio.hpp
index 4c7ef05..7805a87 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.hpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.hpp
@@ -64,7 +64,7 @@ public:
 
 public:
 	stdio_t();
-	~stdio_t() = default;
+	~stdio_t();
 
 public:
 	void initialize( ExtensionNamespace* scope );
-- 
2.43.0


From 89fb4a4489af91a5152deac0872dddaa69301dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:36 +0000
Subject: [PATCH 35/89] fix: reset the console output mode for each virtual
 machine

The mode chosen by one script was still in effect for the next one.
---
 Projects/Extensions/System/Console/Console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/Console/Console.cpp b/Projects/Extensions/System/Console/Console.cpp
index d263961..cedc669 100644
--- a/Projects/Extensions/System/Console/Console.cpp
+++ b/Projects/Extensions/System/Console/Console.cpp
@@ -26,7 +26,7 @@ SystemConsoleExtension::SystemConsoleExtension()
 
 void SystemConsoleExtension::initialize( ExtensionNamespace* /*scope*/ )
 {
-	// nothing to do here
+	mOutMode = CERR;
 }
 
 void SystemConsoleExtension::provideMethods( ExtensionMethods& methods )
-- 
2.43.0


From ba617cf9b2e14008a0726333747184f96261fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:36 +0000
Subject: [PATCH 36/89] fix: reuse the main thread when a script is run again

Each further run created another thread, so code asking for thread 0
looked at the frames of the wrong one.
---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 8b79ba9..f3b785a 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -440,7 +440,9 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 		throw Common::Exceptions::Exception("could not resolve method 'Main(" + toString(params) + ")'");
 	}
 
-	auto* thread = Controller::Instance().threads()->createThread();
+	// scripts are always executed by the first thread, it already exists if this isn't the first run
+	auto* threads = Controller::Instance().threads();
+	auto* thread = threads->getNumThreads() ? threads->getThread( 0 ) : threads->createThread();
 
 	auto controlflow = thread->execute(nullptr, main, params, result);
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
-- 
2.43.0


From 19240bb3a888e54509202641c7d47c9618863112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 37/89] fix: release objects that reference each other when a
 program ends

Objects in a reference cycle, like the items of a list, were deleted
twice or after the code of their destructors, so the program crashed
instead of ending with its exit status.
---
 Projects/Core/Core/VirtualMachine/Controller.cpp | 2 +-
 Projects/Core/Core/VirtualMachine/Memory.cpp     | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 9c497d5..bdc00e5 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -30,11 +30,11 @@ void Controller::deinit()
 	// release all exceptions and global objects as long as everything their destructors may use is still available
 	mThreads->clearExceptions();
 	mGlobalScope->clearObjects();
+	mMemory->deinit();
 
 	delete mGlobalScope;
 	mGlobalScope = nullptr;
 
-	mMemory->deinit();
 	mThreads->deinit();
 	mRepository->deinit();
 
diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..967fee5 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -56,8 +56,11 @@ void Memory::deinit()
 
 		//it.second.mObject->Destructor();
 
-		// force delete
-		delete it.second.mObject;
+		// force delete, objects that reference each other must find their addresses but not be deleted twice
+		auto* object = it.second.mObject;
+		it.second.mObject = nullptr;
+
+		delete object;
 	}
 
 	mMemory.clear();
-- 
2.43.0


From d7db45c6b7a5950583c9c7a853f98ee214c2821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 38/89] fix: stop at breakpoints on statements that consist of
 an expression

---
 Projects/Core/Core/AST/Expression.h        | 9 +++++++++
 Projects/Core/Core/AST/TreeGenerator.cpp   | 6 ++++++
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 ++
 3 files changed, 17 insertions(+)

diff --git a/Projects/Core/Core/AST/Expression.h b/Projects/Core/Core/AST/Expression.h
index a942401..c16347c 100644
--- a/Projects/Core/Core/AST/Expression.h
+++ b/Projects/Core/Core/AST/Expression.h
@@ -102,12 +102,21 @@ public:
 		return mResultType;
 	}
 
+	// first token of an expression that is used as a statement
+	const Token& token() const {
+		return mToken;
+	}
+	void token(const Token& token) {
+		mToken = token;
+	}
+
 protected:
 	ExpressionType::E mExpressionType;
 	bool mIsAtomicType;
 	bool mIsConst;
 	bool mIsMember;
 	std::string mResultType;
+	Token mToken;
 };
 
 typedef std::list<Node*> ExpressionList;
diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..1ace8d1 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1819,6 +1819,8 @@ Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndC
 {
 	Node* node = nullptr;
 
+	const Token start = (*token);
+
 	switch ( token->type() ) {
 		case Token::Type::BRACKET_CURLY_OPEN:
 			node = process_scope(token, allowBreakAndContinue);	// this opens a new scope
@@ -1847,6 +1849,10 @@ Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndC
 			throw Designtime::Exceptions::SyntaxError("invalid token '" + token->content() + "' found", token->position());
 	}
 
+	if ( auto* exp = dynamic_cast<Expression*>(node) ) {
+		exp->token(start);
+	}
+
 	return node;
 }
 
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9eaef89..9b8b72e 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1049,6 +1049,8 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 void TreeInterpreter::visitExpression(Expression* expression)
 {
+	DEBUGGER( notify(getScope(), expression->token()) );		// notify debugger
+
 	Runtime::Object tmp;
 	tryControl(evaluate(expression, &tmp));
 }
-- 
2.43.0


From d3e485be7f19ffef62edd5e98a2071dc9d242ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 39/89] fix: honour breakpoints while stepping into or out of
 functions

---
 Projects/Core/Debugger/Debugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..5907cf4 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -109,6 +109,8 @@ void Debugger::notify(IScope* scope, const Token& token)
 		case NextAction::StepOver:
 			stop = true;
 			break;
+		case NextAction::StepInto:
+		case NextAction::StepOut:
 		case NextAction::WaitForBreakPoint:
 			if ( breakIt != mBreakPoints.end() ) {
 				stop = true;
-- 
2.43.0


From 7f2a239e1e4203694d377f8715ecfee4bbba5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 40/89] fix: resolve symbols of breakpoint conditions where the
 program stopped

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ba82d2f..ec00739 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -686,6 +686,9 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
     writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
 
+    // symbols of the condition have to be resolved where we stopped
+    mScope = scope;
+
     // Condition check
     const auto& condition = breakpoint.getCondition();
     Symbol* lhs = getSymbol( condition.lhs() );
@@ -704,6 +707,7 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
     if (  condition.isValid() && !condition.evaluate( lhs, rhs )  ) {
         mContinue = true;
+        mScope = nullptr;
         return 0;
     }
 
-- 
2.43.0


From 92d5a0de6ff63992f8db1cb567ff739653b9f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 41/89] fix: quit the debugger at the end of its input

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ec00739..16be86d 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -924,7 +924,11 @@ std::string LocalClient::read()
 {
 	std::string result;
 
-	getline( std::cin >> std::ws, result );
+	if (  !getline( std::cin >> std::ws, result )  ) {
+		// there won't be any more commands
+		return "quit";
+	}
+
 	std::cin.clear();
 
 	return result;
-- 
2.43.0


From 1dd696ca35906cb183fd2e02d8f961226720d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 42/89] fix: end the remote client at the end of its input

---
 .../slang-dbg/VSCodeRemoteClient/RemoteClient.cpp   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/VSCodeRemoteClient/RemoteClient.cpp b/Projects/slang-dbg/VSCodeRemoteClient/RemoteClient.cpp
index 8d3b1be..bb605e7 100644
--- a/Projects/slang-dbg/VSCodeRemoteClient/RemoteClient.cpp
+++ b/Projects/slang-dbg/VSCodeRemoteClient/RemoteClient.cpp
@@ -307,7 +307,18 @@ std::string RemoteClient::read()
 {
 	std::string result;
 
-	getline(std::cin >> std::ws, result);
+	if ( !getline(std::cin >> std::ws, result) ) {
+		// there won't be any more requests
+		mRunning = false;
+
+		if ( mScope ) {
+			// hack to exit debugger during an active debugging session
+			throw Runtime::ControlFlow::ExitProgram;
+		}
+
+		return "";
+	}
+
 	std::cin.clear();
 
 	VSCodeDebug::MessageConverter converter;
-- 
2.43.0


From 1aa41d65bdfd58310664554faa36ef493c0650b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 43/89] fix: debug functions without statements

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9b8b72e..b0d84ea 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -627,14 +627,14 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 
 	// notify debugger
 	//DEBUGGER( notifyEnter( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyEnter( &scope, method->getRootNode()->token() ) );
+	DEBUGGER( notifyEnter( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
 
 	// interpret scope tokens
 	process(method->getRootNode());
 
 	// notify debugger
 	//DEBUGGER( notifyExit( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyExit( &scope, method->getRootNode()->token() ) );
+	DEBUGGER( notifyExit( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
 
 	// only set return value if we are a non-void method
 	if ( result && method->QualifiedTypename() != _void ) {
-- 
2.43.0


From 4612b2e9297ccbaec067c94d56564473f71b37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 44/89] fix: start the debugged program without a command line

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 16be86d..870a141 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -781,7 +781,9 @@ void LocalClient::prepare(  const StringList& tokens  )
 	std::string paramStr = mSettings->filename();
 
 	auto it = tokens.begin();
-	++it;	// skip first token
+	if (  it != tokens.end()  ) {
+		++it;	// skip first token
+	}
 	while (  it != tokens.end()  ) {
 		paramStr += "\n" + ( *it++ );
 	}
-- 
2.43.0


From 25cf92941116ace32c7626adfe88a9fda5f98645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 45/89] fix: step over called functions

---
 Projects/Core/Debugger/Debugger.cpp | 19 ++++++++++++++++++-
 Projects/Core/Debugger/Debugger.h   |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index 5907cf4..6f7b38c 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -5,6 +5,8 @@
 // Library includes
 
 // Project includes
+#include <Core/VirtualMachine/Controller.h>
+#include <Core/VirtualMachine/Threads.h>
 #include "IReceiver.h"
 
 // Namespace declarations
@@ -23,6 +25,7 @@ Debugger::Debugger()
   mBreakOnExceptionThrow(false),
   mNextAction(NextAction::WaitForBreakPoint),
   mReceiver(nullptr),
+  mStepOverFrames(0),
   mUseDebugger(false)
 {
 }
@@ -107,7 +110,13 @@ void Debugger::notify(IScope* scope, const Token& token)
 
 	switch ( mNextAction ) {
 		case NextAction::StepOver:
-			stop = true;
+			if ( numFrames() <= mStepOverFrames ) {		// don't stop inside of called methods...
+				stop = true;
+			}
+			else if ( breakIt != mBreakPoints.end() ) {	// ... as long as there is no breakpoint
+				stop = true;
+				breakpoint = *breakIt;
+			}
 			break;
 		case NextAction::StepInto:
 		case NextAction::StepOut:
@@ -154,6 +163,13 @@ void Debugger::notifyExit(IScope* scope, const Token& token)
 	}
 }
 
+size_t Debugger::numFrames() const
+{
+	auto* threads = Controller::Instance().threads();
+
+	return threads && threads->getNumThreads() ? threads->getThread(0)->getNumFrames() : 0;
+}
+
 bool Debugger::registerReceiver(IReceiver* receiver)
 {
 	// only one receiver can be registered at a time
@@ -198,6 +214,7 @@ void Debugger::stepOut()
 void Debugger::stepOver()
 {
 	mNextAction = NextAction::StepOver;
+	mStepOverFrames = numFrames();
 }
 
 bool Debugger::unregisterReceiver(IReceiver* receiver)
diff --git a/Projects/Core/Debugger/Debugger.h b/Projects/Core/Debugger/Debugger.h
index 8a09656..8a775c1 100644
--- a/Projects/Core/Debugger/Debugger.h
+++ b/Projects/Core/Debugger/Debugger.h
@@ -70,6 +70,7 @@ public:
 
 private:
 	BreakPointCollection::iterator findBreakPoint(const Token& token);
+	size_t numFrames() const;
 
 private:
 	Debugger();
@@ -83,6 +84,7 @@ private:
 	BreakPointCollection mBreakPoints;
 	NextAction::E mNextAction;
 	IReceiver* mReceiver;
+	size_t mStepOverFrames;
 	bool mUseDebugger;
 };
 
-- 
2.43.0


From 674975f2700d3c5e96d82cbbef8798fc43985c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 46/89] fix: return to the prompt after the debugged program
 has ended

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 870a141..303815f 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -1001,6 +1001,9 @@ void LocalClient::run( const StringList& tokens )
 	start();
 
 	stop();
+
+	// commands that continued the program don't affect the prompt it has been started from
+	mContinue = false;
 }
 
 void LocalClient::saveConfig()
-- 
2.43.0


From 9617edff98eac7db705a5d2da89681d9b69db6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 47/89] fix: recognise literals in breakpoint conditions

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 303815f..be171a9 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -103,7 +103,7 @@ bool LocalClient::addLiteralSymbol( const std::string& name, const std::string&
 		return true;
 	}
 
-	Tokenizer t( "", value );
+	Tokenizer t( "", value + " " );		// a token is complete as soon as it is followed by something else
 	t.process();
 
 	Symbol* symbol = nullptr;
-- 
2.43.0


From c6ea94fd82995f0f41ab08038712b4f7ea281410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 48/89] fix: stop only once at the first statement of a block

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b0d84ea..61a0ea5 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1226,7 +1226,10 @@ void TreeInterpreter::visitReturn(ReturnStatement* node)
 
 void TreeInterpreter::visitStatement(Statement *node)
 {
-	DEBUGGER( notify(getScope(), node->token()) );		// notify debugger
+	// notify debugger, blocks don't count since they start with the first of their statements
+	if ( node->getStatementType() != Statement::StatementType::Statements ) {
+		DEBUGGER( notify(getScope(), node->token()) );
+	}
 
 	switch ( node->getStatementType() ) {
 		case Statement::StatementType::AssertStatement:
-- 
2.43.0


From d4c55064ca3b496cf45bb3d1ac64bfb81c9cd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 49/89] fix: ignore frame and thread commands while no program
 is running

---
 .../slang-dbg/LocalClient/LocalClient.cpp     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index be171a9..3a7dbd6 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -382,6 +382,10 @@ void LocalClient::executeMethod( const StringList &tokens )
 
 void LocalClient::frameDown()
 {
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	if (  mCurrentFrameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
 		return;
 	}
@@ -396,6 +400,10 @@ void LocalClient::frameDown()
 
 void LocalClient::frameUp()
 {
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	if (  mCurrentFrameId <= 0  ) {
 		return;
 	}
@@ -910,6 +918,10 @@ void LocalClient::printSymbol( const StringList& tokens )
 
 void LocalClient::printThreads()
 {
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	writeln( "Threads:" );
 
 	Controller::Instance().threads()->print();
@@ -1050,6 +1062,10 @@ void LocalClient::saveConfig()
 
 void LocalClient::setCurrentFrame( FrameId frameId )
 {
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	if (  frameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
 		writeln( "invalid frame selected!" );
 		return;
@@ -1087,6 +1103,10 @@ void LocalClient::setCurrentFrame( const StringList& tokens )
 
 void LocalClient::setCurrentThread( ThreadId threadId )
 {
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	if (  threadId >= Controller::Instance().threads()->getNumThreads()  ) {
 		writeln( "invalid thread selected!" );
 		return;
-- 
2.43.0


From c7f7adc607111bb4061c57e94861a4d0a5d0daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 50/89] fix: unwind the program when the debugger quits

---
 Projects/Core/Core/AST/TreeInterpreter.cpp    | 25 +++++++++++++------
 .../Core/VirtualMachine/VirtualMachine.cpp    |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 61a0ea5..ecf538a 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -44,6 +44,15 @@
 			return; \
 		}
 
+// leaves the current control flow behind instead of unwinding the native stack
+#define tryControlContinue( exp ) \
+		try { \
+			exp; \
+		} \
+		catch ( Runtime::ControlFlow::E &e ) { \
+			mControlFlow = e; \
+		}
+
 #define tryControlReturnNull( exp ) \
 		try { \
 			exp; \
@@ -627,14 +636,14 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 
 	// notify debugger
 	//DEBUGGER( notifyEnter( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyEnter( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
+	tryControlContinue( DEBUGGER( notifyEnter( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) ) );
 
 	// interpret scope tokens
 	process(method->getRootNode());
 
 	// notify debugger
 	//DEBUGGER( notifyExit( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyExit( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
+	tryControlContinue( DEBUGGER( notifyExit( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) ) );
 
 	// only set return value if we are a non-void method
 	if ( result && method->QualifiedTypename() != _void ) {
@@ -1049,7 +1058,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 void TreeInterpreter::visitExpression(Expression* expression)
 {
-	DEBUGGER( notify(getScope(), expression->token()) );		// notify debugger
+	tryControl( DEBUGGER( notify(getScope(), expression->token()) ) );		// notify debugger
 
 	Runtime::Object tmp;
 	tryControl(evaluate(expression, &tmp));
@@ -1228,7 +1237,7 @@ void TreeInterpreter::visitStatement(Statement *node)
 {
 	// notify debugger, blocks don't count since they start with the first of their statements
 	if ( node->getStatementType() != Statement::StatementType::Statements ) {
-		DEBUGGER( notify(getScope(), node->token()) );
+		tryControl( DEBUGGER( notify(getScope(), node->token()) ) );
 	}
 
 	switch ( node->getStatementType() ) {
@@ -1365,7 +1374,7 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 	mControlFlow = Runtime::ControlFlow::Throw;
 
 	// notify our debugger that an exception has been thrown
-	DEBUGGER( notifyExceptionThrow(getScope(), node->token()) );
+	tryControl( DEBUGGER( notifyExceptionThrow(getScope(), node->token()) ) );
 }
 
 void TreeInterpreter::visitTry(TryStatement* node)
@@ -1406,12 +1415,12 @@ void TreeInterpreter::visitTry(TryStatement* node)
 				Runtime::operator_binary_assign(symbol, exception);
 			}
 
-			// notify our debugger that an exception has been caught
-			DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) );
-
 			// reset current control flow to allow execution of catch block
 			mControlFlow = Runtime::ControlFlow::Normal;
 
+			// notify our debugger that an exception has been caught
+			tryControlContinue( DEBUGGER( notifyExceptionCatch(getScope(), stmt->token()) ) );
+
 			// execute statements of catch-block
 			visitStatements(stmt->mStatements);
 
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index f3b785a..7a1be40 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -449,7 +449,7 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 		throw Runtime::ControlFlow::Throw;
 	}
 	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
-		if ( result ) {
+		if ( result && thread->exception().getData() ) {
 			// provide the given exit status as result
 			*result = *thread->exception().getData();
 		}
-- 
2.43.0


From 7c5eab1bd3e9ff7e36c8e1732450155ffb060883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 51/89] fix: end the program when the debugger quits inside a
 destructor

---
 .../slang-dbg/LocalClient/LocalClient.cpp     | 24 ++++++++++++++++++-
 Projects/slang-dbg/LocalClient/LocalClient.h  |  2 ++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 3a7dbd6..6eab6c2 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -53,6 +53,7 @@ LocalClient::LocalClient()
   mCurrentFrameId( 0 ),
   mCurrentThreadId( 0 ),
   mDebugger( nullptr ),
+  mQuit( false ),
   mRunning( true ),
   mScope( nullptr ),
   mVirtualMachine( nullptr )
@@ -165,6 +166,13 @@ void LocalClient::clearSymbolCache()
 	mSymbolCollection.clear();
 }
 
+void LocalClient::checkQuit() const
+{
+	if (  mQuit  ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
+}
+
 void LocalClient::continueExecution()
 {
 	mContinue = true;
@@ -282,8 +290,12 @@ std::string LocalClient::executeCommand( const StringList &tokens )
 			mRunning = false;
 
 			if (  mScope  ) {
+				// end the program at its next statement in case it gets past this one (i.e. if we stopped in a destructor)
+				mDebugger->stepOver();
+				mQuit = true;
+
 				// hack to exit debugger during an active debugging session
-				throw Runtime::ControlFlow::ExitProgram;
+				checkQuit();
 			}
 		}
 		else if (  cmd == "run" || cmd == "r"  ) {
@@ -692,6 +704,8 @@ bool LocalClient::modifySymbol( const StringList& tokens )
 
 int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
+    checkQuit();
+
     writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
 
     // symbols of the condition have to be resolved where we stopped
@@ -726,6 +740,8 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
 int LocalClient::notifyEnter( IScope* scope, const Core::BreakPoint& breakpoint )
 {
+    checkQuit();
+
     writeln( "[Stepping into " + Controller::Instance().thread( mCurrentThreadId )->currentFrame()->toString() + "]" );
 
     return handleBreakpoint( scope, breakpoint );
@@ -733,6 +749,8 @@ int LocalClient::notifyEnter( IScope* scope, const Core::BreakPoint& breakpoint
 
 int LocalClient::notifyExceptionCatch( IScope *scope, const Core::BreakPoint &breakpoint )
 {
+	checkQuit();
+
 	writeln( "[Caught exception in " + Controller::Instance().thread( mCurrentThreadId )->currentFrame()->toString() + "]" );
 
 	return handleBreakpoint( scope, breakpoint );
@@ -740,6 +758,8 @@ int LocalClient::notifyExceptionCatch( IScope *scope, const Core::BreakPoint &br
 
 int LocalClient::notifyExceptionThrow( IScope *scope, const Core::BreakPoint &breakpoint )
 {
+	checkQuit();
+
 	writeln( "[Exception has been thrown in " + Controller::Instance().thread( mCurrentThreadId )->currentFrame()->toString() + "]" );
 
 	return handleBreakpoint( scope, breakpoint );
@@ -747,6 +767,8 @@ int LocalClient::notifyExceptionThrow( IScope *scope, const Core::BreakPoint &br
 
 int LocalClient::notifyExit( IScope* scope, const Core::BreakPoint& breakpoint )
 {
+    checkQuit();
+
     writeln( "[Stepping out of " + Controller::Instance().thread( mCurrentThreadId )->currentFrame()->toString() + "]" );
 
     return handleBreakpoint( scope, breakpoint );
diff --git a/Projects/slang-dbg/LocalClient/LocalClient.h b/Projects/slang-dbg/LocalClient/LocalClient.h
index 0e3cb56..8b0d8b4 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.h
+++ b/Projects/slang-dbg/LocalClient/LocalClient.h
@@ -56,6 +56,7 @@ public:
 	void setCurrentThread( ThreadId threadId );
 	void setCurrentThread( const StringList& tokens );
 
+	void checkQuit() const;
 	void continueExecution();
 	void run( const StringList &tokens );
 	void shutdown();
@@ -119,6 +120,7 @@ private:
 	ThreadId mCurrentThreadId;
 	Core::Debugger* mDebugger;
 	ParameterList mParameters;
+	bool mQuit;
 	bool mRunning;
 	IScope* mScope;
 	Symbols mSymbolCollection;
-- 
2.43.0


From 4a485ad70a59339ce974b9948bbba6eeee1469d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:31 +0000
Subject: [PATCH 52/89] fix: stop at breakpoints whose condition cannot be
 evaluated

---
 Projects/Core/Debugger/Condition.cpp | 41 ++++++++++++++++++----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/Projects/Core/Debugger/Condition.cpp b/Projects/Core/Debugger/Condition.cpp
index 829e22c..4b18b12 100644
--- a/Projects/Core/Debugger/Condition.cpp
+++ b/Projects/Core/Debugger/Condition.cpp
@@ -59,21 +59,32 @@ bool Condition::evaluate(Symbol* lhs, Symbol* rhs) const
 	auto* left = dynamic_cast<Runtime::Object*>(lhs);
 	auto* right = dynamic_cast<Runtime::Object*>(rhs);
 
-	switch ( mType ) {
-		case Type::Equals:
-			return operator_binary_equal(left, right);
-		case Type::Greater:
-			return operator_binary_greater(left, right);
-		case Type::GreaterEqual:
-			return operator_binary_greater_equal(left, right);
-		case Type::Less:
-			return operator_binary_less(left, right);
-		case Type::LessEqual:
-			return operator_binary_less_equal(left, right);
-		case Type::Unequal:
-			return !operator_binary_equal(left, right);
-		case Type::Invalid:
-			return true;
+	if ( !left || !right ) {
+		// only objects can be compared
+		return true;
+	}
+
+	try {
+		switch ( mType ) {
+			case Type::Equals:
+				return operator_binary_equal(left, right);
+			case Type::Greater:
+				return operator_binary_greater(left, right);
+			case Type::GreaterEqual:
+				return operator_binary_greater_equal(left, right);
+			case Type::Less:
+				return operator_binary_less(left, right);
+			case Type::LessEqual:
+				return operator_binary_less_equal(left, right);
+			case Type::Unequal:
+				return !operator_binary_equal(left, right);
+			case Type::Invalid:
+				return true;
+		}
+	}
+	catch ( std::exception& ) {
+		// both sides can't be compared with each other, this must not affect the program
+		return true;
 	}
 
 	return false;
-- 
2.43.0


From 1d7dcc8f5b7c1d911e9557bc28607694022a5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:32 +0000
Subject: [PATCH 53/89] fix: report conditional breakpoints only if their
 condition holds

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 6eab6c2..c4c3906 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -706,8 +706,6 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
     checkQuit();
 
-    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
-
     // symbols of the condition have to be resolved where we stopped
     mScope = scope;
 
@@ -733,6 +731,8 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
         return 0;
     }
 
+    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
+
     mSettings->autoStop( false );
 
     return handleBreakpoint( scope, breakpoint );
-- 
2.43.0


From b9b184e5d954f93f10ca7acd9136e10203581b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:48 +0000
Subject: [PATCH 54/89] fix: list functions without statements in the debugger

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index c4c3906..4b54227 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -879,7 +879,7 @@ void LocalClient::printHelp()
 void LocalClient::printScope( IScope* scope )
 {
 	auto* method = getMethodFromScope( scope );
-	if (  !method  ) {
+	if (  !method || !method->getRootNode()  ) {		// there is nothing to print for methods without statements
 		return;
 	}
 
-- 
2.43.0


From 25524d14d25426b3cc3ab9ed012fd4ea30a7d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 55/89] fix: keep the old file when a download fails

Failed transfers, HTTP errors and write errors were taken for successful
downloads, and the cached file was overwritten before the transfer began.
---
 .../slang-pkg/Application/Application.cpp     | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 7792961..3ad4641 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -4,6 +4,7 @@
 
 // Library includes
 #include <algorithm>
+#include <cstdio>
 #include <cstdlib>
 #include <iostream>
 #include <string>
@@ -626,23 +627,32 @@ bool download( const std::string& url, const std::string& target, bool allowClea
     /* send all data to this function  */
     curl_easy_setopt( curl_handle, CURLOPT_WRITEFUNCTION, write_data );
 
+    /* treat HTTP errors as failed transfers */
+    curl_easy_setopt( curl_handle, CURLOPT_FAILONERROR, 1L );
+
+    /* the target is only replaced by a complete download */
+    const std::string partial = target + ".part";
+
     /* open the file */
-    pagefile = fopen( target.c_str(), "wb" );
+    pagefile = fopen( partial.c_str(), "wb" );
     if ( pagefile ) {
         /* write the page body to this file handle */
         curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );
 
         /* get it! */
-        curl_easy_perform( curl_handle );
+        result = ( curl_easy_perform( curl_handle ) == CURLE_OK );
 
         /* close the header file */
-        fclose( pagefile );
+        result = ( fclose( pagefile ) == 0 ) && result;
+
+        result = result && ( std::rename( partial.c_str(), target.c_str() ) == 0 );
 
-        if ( allowCleanup ) {
+        if ( !result ) {
+            std::remove( partial.c_str() );
+        }
+        else if ( allowCleanup ) {
             mDownloadedFiles.push_back( target );
         }
-
-        result = true;
     }
 
     /* cleanup curl stuff */
-- 
2.43.0


From 5610d2b5ccc1d3d431230d2eb11d935c723b29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 56/89] fix: report failed package commands by the exit status

All commands ended with success, whatever went wrong on the way.
---
 .../slang-pkg/Application/Application.cpp     | 192 ++++++++++++------
 Projects/slang-pkg/Common/Consts.h            |   1 +
 2 files changed, 126 insertions(+), 67 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 3ad4641..470dba4 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -46,33 +46,33 @@ namespace {
     void collectLocalModuleData();
     Module collectModuleData( const std::string& path, const std::string& filename );
     bool contains( const StringList& list, const std::string& value );
-    void create( const StringList& params );
-    void createLocalLibrary();
+    bool create( const StringList& params );
+    bool createLocalLibrary();
     bool download( const std::string& url, const std::string& target, bool allowCleanup = true );
-    void execute( const std::string& command, bool debug = false );
+    bool execute( const std::string& command, bool debug = false );
     size_t findCaseInsensitive( const std::string& data, const std::string& toSearch, size_t pos = 0 );
     void info( const StringList& params );
-    void install( const StringList& params );
-    void installModule( const std::string& repo, const std::string& module );
+    bool install( const StringList& params );
+    bool installModule( const std::string& repo, const std::string& module );
     bool isLocalLibrary();
     void list();
     void loadConfig();
     void loadRestrictions();
-    void prepareModuleInstallation( const std::string& repo, const Module& installModule );
+    bool prepareModuleInstallation( const std::string& repo, const Module& installModule );
     bool prepareRemoteRepository();
-    void processRestrictions( const StringList& params );
-    void purge( const StringList& params );
-    size_t push( const StringList& params );
+    bool processRestrictions( const StringList& params );
+    bool purge( const StringList& params );
+    bool push( const StringList& params );
     void readJsonFile( const std::string& filename, Json::Value& result );
-    void remove( const StringList& params );
+    bool remove( const StringList& params );
     void removeRestriction( const std::string& module );
     void removeRestriction( const StringList& params );
     void search( const StringList& params );
-    void storeConfig();
-    void writeJsonFile( const std::string& filename, Json::Value& result );
+    bool storeConfig();
+    bool writeJsonFile( const std::string& filename, Json::Value& result );
     void update();
     size_t upload( const std::string& filename, const std::string& url, const std::string& contentType );
-    void upgrade( const StringList& params );
+    bool upgrade( const StringList& params );
 
 
     StringList mDownloadedFiles;
@@ -104,27 +104,29 @@ void Application::deinit()
 
 int Application::exec()
 {
+    bool success = true;
+
     switch ( mSettings.Action ) {
-        case Create:             create( mParameters ); break;
-        case CreateLocalLibrary: createLocalLibrary(); break;
+        case Create:             success = create( mParameters ); break;
+        case CreateLocalLibrary: success = createLocalLibrary(); break;
         case Help:               printUsage( mParameters ); break;
         case Info:               info( mParameters ); break;
-        case Install:            install( mParameters ); break;
+        case Install:            success = install( mParameters ); break;
         case List:               list(); break;
         case None:               /* nothing to do here*/ break;
-        case Purge:              purge( mParameters ); break;
-        case Push:               push( mParameters ); break;
-        case Remove:             remove( mParameters ); break;
-        case Restrict:           processRestrictions( mParameters ); break;
+        case Purge:              success = purge( mParameters ); break;
+        case Push:               success = push( mParameters ); break;
+        case Remove:             success = remove( mParameters ); break;
+        case Restrict:           success = processRestrictions( mParameters ); break;
         case Search:             search( mParameters ); break;
         case Update:             update(); break;
-        case Upgrade:            upgrade( mParameters ); break;
+        case Upgrade:            success = upgrade( mParameters ); break;
         case Version:            printVersion(); break;
     }
 
     cleanCache();
 
-    return 0;
+    return success ? OKAY : ERROR_COMMAND;
 }
 
 void Application::init( int argc, const char* argv[] )
@@ -532,14 +534,14 @@ bool contains( const StringList& list, const std::string& value )
  * creates a module package ( "<module>.json", "<module>_<version>.tar.gz" )
  * does NOT upload the package to a repository
  */
-void create( const StringList& params )
+bool create( const StringList& params )
 {
     // ( 1 ) collect module information from given "<directory>/module.json"
     // ( 2 ) create "<module>_<version>.json", "<module>_<version>.tar.gz"
 
     if ( params.empty() || params.size() != 1 ) {
         std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return;
+        return false;
     }
 
     // TODO: module name is not allowed to end with '/'
@@ -551,16 +553,24 @@ void create( const StringList& params )
     {   // create version specific module information ( "<module>_<version>.json" )
         std::cout << "Creating module information \"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json\"" << std::endl;
 
-        execute( "cp " + path + "/" + filename + " " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" );
+        if ( !execute( "cp " + path + "/" + filename + " " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" ) ) {
+            std::cerr << "!!! Failed to create module information" << std::endl;
+            return false;
+        }
     }
     {   // create package ( "<module>_<version>.tar.gz" )
         std::cout << "Creating module package \"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz\"" << std::endl;
 
-        execute( "tar --exclude-vcs -cjf " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz " + path );
+        if ( !execute( "tar --exclude-vcs -cjf " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz " + path ) ) {
+            std::cerr << "!!! Failed to create module package" << std::endl;
+            return false;
+        }
     }
+
+    return true;
 }
 
-void createLocalLibrary()
+bool createLocalLibrary()
 {
     std::cout << "Preparing current directory for slang-pkg..." << std::endl;
 
@@ -598,8 +608,10 @@ void createLocalLibrary()
         config[ "restrictions" ] = Json::Value();
 
         // write json config to file
-        writeJsonFile( mSettings.CurrentFolder + CONFIG_FILE, config );
+        return writeJsonFile( mSettings.CurrentFolder + CONFIG_FILE, config );
     }
+
+    return true;
 }
 
 bool download( const std::string& url, const std::string& target, bool allowCleanup )
@@ -661,14 +673,13 @@ bool download( const std::string& url, const std::string& target, bool allowClea
     return result;
 }
 
-void execute( const std::string& command, bool debug )
+bool execute( const std::string& command, bool debug )
 {
     if ( debug ) {
         std::cout << command << std::endl;
     }
 
-    auto result = system( command.c_str() );
-    ( void )result;
+    return system( command.c_str() ) == 0;
 }
 
 /*
@@ -777,7 +788,7 @@ void info( const StringList& params )
     }
 }
 
-void install( const StringList& params )
+bool install( const StringList& params )
 {
     // ( 1 ) prepare dependencies
     // ( 2 ) install missing dependencies
@@ -786,7 +797,7 @@ void install( const StringList& params )
 
     if ( params.empty() ) {
         std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return;
+        return false;
     }
 
     collectLocalModuleData();
@@ -817,7 +828,9 @@ void install( const StringList& params )
             forceVersion = true;
         }
 
-        prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) );
+        if ( !prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) ) ) {
+            return false;
+        }
     }
 
     bool allowInstall = true;
@@ -852,6 +865,8 @@ void install( const StringList& params )
         mMissingDependencies.addModule( missingModule );
     }
 
+    bool success = allowInstall;
+
     if ( allowInstall ) {
         auto missing = mMissingDependencies.getModules();
 
@@ -865,12 +880,16 @@ void install( const StringList& params )
                 }
             }
 
-            installModule( mRemoteRepository.getURL(), moduleIt.mShortName );
+            if ( !installModule( mRemoteRepository.getURL(), moduleIt.mShortName ) ) {
+                success = false;
+            }
         }
     }
+
+    return success;
 }
 
-void installModule( const std::string& repo, const std::string& module )
+bool installModule( const std::string& repo, const std::string& module )
 {
     std::cout << "Installing module \"" << module << "\" from \"" << repo << "\"..." << std::endl;
 
@@ -878,7 +897,7 @@ void installModule( const std::string& repo, const std::string& module )
 
     if ( !Utils::Tools::Files::exists( moduleConfig ) ) {
         std::cerr << "!!! Module information missing for module \"" << module << "\"" << std::endl;
-        return;
+        return false;
     }
 
     auto tmpModule = collectModuleData( mSettings.LibraryFolder + CONFIG_CACHE_MODULES, module + ".json" );
@@ -888,11 +907,11 @@ void installModule( const std::string& repo, const std::string& module )
 
     if ( !config.isMember( "target" ) ) {
         std::cerr << "!!! No target entry found in module information" << std::endl;
-        return;
+        return false;
     }
     if ( !config[ "target" ].isMember( "type" ) ) {
         std::cerr << "!!! No type entry found in target module information" << std::endl;
-        return;
+        return false;
     }
 
     std::string type = config[ "target" ][ "type" ].asString();
@@ -908,7 +927,7 @@ void installModule( const std::string& repo, const std::string& module )
     }
     else {
         std::cerr << "!!! invalid target type specified" << std::endl;
-        return;
+        return false;
     }
 
     auto module_archive = mSettings.LibraryFolder + CONFIG_CACHE_MODULES + module + FILE_VERSION_SEPARATOR + config[ "version" ].asString() + ".tar.gz";
@@ -916,14 +935,19 @@ void installModule( const std::string& repo, const std::string& module )
     auto result = download( url, module_archive );
     if ( !result ) {
         std::cerr << "!!! Failed to download target" << std::endl;
-        return;
+        return false;
     }
 
-    execute( "tar xf " + module_archive + " -C " + mSettings.LibraryFolder );
+    if ( !execute( "tar xf " + module_archive + " -C " + mSettings.LibraryFolder ) ) {
+        std::cerr << "!!! Failed to unpack module \"" << module << "\"" << std::endl;
+        return false;
+    }
 
     for ( const std::string& file : tmpModule.mTarget.InstalledFiles ) {
         execute( CONFIG_SCRIPTS + "addLink.sh \"" + mSettings.LibraryFolder + "/" + module + "/" + file + "\" \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\"" );
     }
+
+    return true;
 }
 
 bool isLocalLibrary()
@@ -1045,7 +1069,7 @@ void loadRestrictions()
     }
 }
 
-void prepareModuleInstallation( const std::string& repo, const Module& installModule )
+bool prepareModuleInstallation( const std::string& repo, const Module& installModule )
 {
 #ifdef SLANG_DEBUG
     std::cout << "Preparing module \"" << installModule.mShortName << " (" << installModule.mVersion.toString() << ")\" from \"" << repo << "\"..." << std::endl;
@@ -1063,12 +1087,12 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
     bool result = download( url, moduleConfig );
     if ( !result ) {
         std::cerr << "!!! Download of module information for \"" << installModule.mShortName << "\" failed" << std::endl;
-        return;
+        return false;
     }
 
     if ( mSettings.SkipDependencies ) {
         // skipping dependencies as requested
-        return;
+        return true;
     }
 
     auto module = collectModuleData( path, filename );
@@ -1101,9 +1125,13 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
 
             mMissingDependencies.addModule( dependent );
 
-            prepareModuleInstallation( repo, dependent );
+            if ( !prepareModuleInstallation( repo, dependent ) ) {
+                return false;
+            }
         }
     }
+
+    return true;
 }
 
 bool prepareRemoteRepository()
@@ -1126,14 +1154,14 @@ bool prepareRemoteRepository()
     return true;
 }
 
-void processRestrictions( const StringList& params )
+bool processRestrictions( const StringList& params )
 {
     // ( 1 ) check if the requested module is actually installed
     // ( 2 ) add a version restriction for the given module
 
     if ( params.empty() ) {
         std::cerr << "!!! Invalid number of parameters: " << params.size() << std::endl;
-        return;
+        return false;
     }
 
     collectLocalModuleData();
@@ -1161,10 +1189,10 @@ void processRestrictions( const StringList& params )
         restrictions[ module ] = value;
     }
 
-    storeConfig();
+    return storeConfig();
 }
 
-void purge( const StringList& params )
+bool purge( const StringList& params )
 {
     // ( 1 ) remove the configuration of the requested modules
     // ( 2 ) remove the modules themselves
@@ -1172,23 +1200,23 @@ void purge( const StringList& params )
 
     if ( mParameters.empty() ) {
         std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return;
+        return false;
     }
 
     // ( 1 ) remove the module configurations from config.json
     removeRestriction( params );
 
     // ( 2 ) remove the modules ( if installed )
-    remove( params );
+    bool success = remove( params );
 
     // ( 3 ) store configuration
-    storeConfig();
+    return storeConfig() && success;
 }
 
 /*
  * Push packages to HTTP repository server
  */
-size_t push( const StringList& params )
+bool push( const StringList& params )
 {
     // ( 0 ) make sure that the module is prepared for upload
     // ( 1 ) check if files "<module>_<version>.json", "<module>_<version>.tar.gz" are present
@@ -1197,15 +1225,20 @@ size_t push( const StringList& params )
 
     if ( params.empty() ) {
         std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return 1;
+        return false;
     }
 
+    bool success = true;
+
     for ( const auto& param : params )
     {
         std::string path     = param;
         std::string filename = "module.json";
 
-        create( StringList{ path } );
+        if ( !create( StringList{ path } ) ) {
+            success = false;
+            continue;
+        }
 
         auto module = collectModuleData( path, filename );
 
@@ -1230,7 +1263,10 @@ size_t push( const StringList& params )
             }
         }
 
-        if ( !result ) {
+        if ( result ) {
+            success = false;
+        }
+        else {
             std::cout << "Successfully uploaded module '" << param << "' to repository '" << mRemoteRepository.getURL() << "'" << std::endl;
         }
 
@@ -1239,7 +1275,7 @@ size_t push( const StringList& params )
         execute( "rm " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz" );
     }
 
-    return 0;
+    return success;
 }
 
 void readJsonFile( const std::string& filename, Json::Value& result )
@@ -1255,20 +1291,22 @@ void readJsonFile( const std::string& filename, Json::Value& result )
     reader.parse( data, result );
 }
 
-void remove( const StringList& params )
+bool remove( const StringList& params )
 {
     // ( 1 ) check if the requested modules are actually installed
     // ( 2 ) remove them by deleting their complete directory
 
     if ( mParameters.empty() ) {
         std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return;
+        return false;
     }
 
     collectLocalModuleData();
 
     auto local = mLocalRepository.getModules();
 
+    bool success = true;
+
     for ( const auto& param : params ) {
         bool found = false;
 
@@ -1279,14 +1317,20 @@ void remove( const StringList& params )
                 std::cout << "Removing module \"" << localIt.mShortName << "\" from \"" << localIt.mTarget.Directory << "\"..." << std::endl;
 
                 execute( CONFIG_SCRIPTS + "removeLinks.sh \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\" \"" + mSettings.LibraryFolder + "/" + localIt.mShortName + "\"" );
-                execute( "rm -r " + localIt.mTarget.Directory );
+                if ( !execute( "rm -r " + localIt.mTarget.Directory ) ) {
+                    success = false;
+                    std::cerr << "!!! Failed to remove module \"" << localIt.mShortName << "\"" << std::endl;
+                }
             }
         }
 
         if ( !found ) {
+            success = false;
             std::cerr << "!!! Module \"" << param << "\" cannot be removed because it is not installed" << std::endl;
         }
     }
+
+    return success;
 }
 
 void removeRestriction( const std::string& module )
@@ -1386,13 +1430,13 @@ void search( const StringList& params )
     }
 }
 
-void storeConfig()
+bool storeConfig()
 {
     // write json config to file
-    writeJsonFile( mSettings.LibraryFolder + CONFIG_FILE, mSettings.Config );
+    return writeJsonFile( mSettings.LibraryFolder + CONFIG_FILE, mSettings.Config );
 }
 
-void writeJsonFile( const std::string& filename, Json::Value& result )
+bool writeJsonFile( const std::string& filename, Json::Value& result )
 {
     // write contents of Json::Value into filename
 
@@ -1403,6 +1447,13 @@ void writeJsonFile( const std::string& filename, Json::Value& result )
     stream.open( filename.c_str(), std::ios::out );    // open file for writing
     stream.write( data.c_str(), data.size() );
     stream.close();
+
+    if ( !stream ) {
+        std::cerr << "!!! Failed to write file \"" << filename << "\"" << std::endl;
+        return false;
+    }
+
+    return true;
 }
 
 void update()
@@ -1424,7 +1475,7 @@ void update()
     }
 }
 
-void upgrade( const StringList& params )
+bool upgrade( const StringList& params )
 {
     // ( 1 ) retrieve outdated modules
     // ( 2 ) list all found modules
@@ -1440,6 +1491,7 @@ void upgrade( const StringList& params )
 
     if ( outdatedModules.empty() ) {
         std::cout << "No outdated modules found." << std::endl;
+        return true;
     }
     else {
         // find out if the user wants to upgrade some of our outdated modules
@@ -1456,17 +1508,23 @@ void upgrade( const StringList& params )
         if ( upgradeModules.empty() ) {
             // no modules added to upgrade
             std::cout << "No upgradeable module selected." << std::endl;
-            return;
+            return true;
         }
 
         std::cout << "Need to upgrade " << upgradeModules.size() << " module(s)..." << std::endl;
 
+        bool success = true;
+
         for ( const auto& outdatedModule : upgradeModules ) {
             std::cout << outdatedModule.mShortName << "( " << outdatedModule.mVersion.toString() << " )" << std::endl;
 
             // install new versions of the selected outdated modules
-            install( StringList{ outdatedModule.mShortName } );
+            if ( !install( StringList{ outdatedModule.mShortName } ) ) {
+                success = false;
+            }
         }
+
+        return success;
     }
 }
 
diff --git a/Projects/slang-pkg/Common/Consts.h b/Projects/slang-pkg/Common/Consts.h
index dc91429..5d656c4 100644
--- a/Projects/slang-pkg/Common/Consts.h
+++ b/Projects/slang-pkg/Common/Consts.h
@@ -64,6 +64,7 @@ static const int32_t ERROR_SYSTEM = 1;
 static const int32_t ERROR_ARCHITECTURE = 2;
 static const int32_t ERROR_MODULE_DIRECTORY = 3;
 static const int32_t ERROR_INDEX_UPDATE = 4;
+static const int32_t ERROR_COMMAND = 5;
 
 
 #endif
-- 
2.43.0


From 0d229c6e4801a5a9ca78a1aaf07f9c73b8f194b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 57/89] fix: do not unpack damaged packages

A damaged package was unpacked over the installed version as far as possible.
---
 Projects/slang-pkg/Application/Application.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 470dba4..f63dcd1 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -938,6 +938,12 @@ bool installModule( const std::string& repo, const std::string& module )
         return false;
     }
 
+    // unpack only intact packages to leave an installed version alone
+    if ( !execute( "tar tf " + module_archive + " > /dev/null" ) ) {
+        std::cerr << "!!! Package of module \"" << module << "\" is damaged" << std::endl;
+        return false;
+    }
+
     if ( !execute( "tar xf " + module_archive + " -C " + mSettings.LibraryFolder ) ) {
         std::cerr << "!!! Failed to unpack module \"" << module << "\"" << std::endl;
         return false;
-- 
2.43.0


From ff13d799d44561706631c0053ac5edbdf44442aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 58/89] fix: keep the old configuration when the new one cannot
 be written

The configuration was overwritten in place, so a crash or a full disk left
a damaged file behind.
---
 Projects/slang-pkg/Application/Application.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index f63dcd1..f016929 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -1449,13 +1449,17 @@ bool writeJsonFile( const std::string& filename, Json::Value& result )
     Json::StyledWriter writer;
     std::string data = writer.write( result );
 
+    // the old file is only replaced by a complete new one
+    const std::string partial = filename + ".part";
+
     std::fstream stream;
-    stream.open( filename.c_str(), std::ios::out );    // open file for writing
+    stream.open( partial.c_str(), std::ios::out );    // open file for writing
     stream.write( data.c_str(), data.size() );
     stream.close();
 
-    if ( !stream ) {
+    if ( !stream || std::rename( partial.c_str(), filename.c_str() ) != 0 ) {
         std::cerr << "!!! Failed to write file \"" << filename << "\"" << std::endl;
+        std::remove( partial.c_str() );
         return false;
     }
 
-- 
2.43.0


From 2fabe4d7c8e7eda83da57e9ad2e6f5b18081d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 59/89] fix: refuse to work with a damaged configuration

A configuration that could not be read was taken for an empty one, which
then replaced it.
---
 .../slang-pkg/Application/Application.cpp     | 25 ++++++++++++-------
 Projects/slang-pkg/Common/Consts.h            |  1 +
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index f016929..1c380ed 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -63,7 +63,7 @@ namespace {
     bool processRestrictions( const StringList& params );
     bool purge( const StringList& params );
     bool push( const StringList& params );
-    void readJsonFile( const std::string& filename, Json::Value& result );
+    bool readJsonFile( const std::string& filename, Json::Value& result );
     bool remove( const StringList& params );
     void removeRestriction( const std::string& module );
     void removeRestriction( const StringList& params );
@@ -506,10 +506,9 @@ Module collectModuleData( const std::string& path, const std::string& filename )
 #endif
 
     Json::Value config;
-    readJsonFile( path + "/" + filename, config );
 
     Module module;
-    if ( !module.loadFromJson( config ) ) {
+    if ( !readJsonFile( path + "/" + filename, config ) || !module.loadFromJson( config ) ) {
         std::cerr << "!!! Invalid module data in file '" << filename << "'" << std::endl;
         return module;
     }
@@ -903,9 +902,7 @@ bool installModule( const std::string& repo, const std::string& module )
     auto tmpModule = collectModuleData( mSettings.LibraryFolder + CONFIG_CACHE_MODULES, module + ".json" );
 
     Json::Value config;
-    readJsonFile( moduleConfig, config );
-
-    if ( !config.isMember( "target" ) ) {
+    if ( !readJsonFile( moduleConfig, config ) || !config.isMember( "target" ) ) {
         std::cerr << "!!! No target entry found in module information" << std::endl;
         return false;
     }
@@ -976,7 +973,13 @@ void list()
 
 void loadConfig()
 {
-    readJsonFile( mSettings.LibraryFolder + CONFIG_FILE, mSettings.Config );
+    auto filename = mSettings.LibraryFolder + CONFIG_FILE;
+
+    if ( Utils::Tools::Files::exists( filename ) && !readJsonFile( filename, mSettings.Config ) ) {
+        // don't continue with an empty configuration, it would replace the real one
+        std::cerr << "!!! Invalid configuration file '" << filename << "'" << std::endl;
+        exit( ERROR_CONFIG );
+    }
 
     if ( mSettings.Config.isMember( "repository" ) ) {
         auto& entry = mSettings.Config[ "repository" ];
@@ -1284,17 +1287,21 @@ bool push( const StringList& params )
     return success;
 }
 
-void readJsonFile( const std::string& filename, Json::Value& result )
+bool readJsonFile( const std::string& filename, Json::Value& result )
 {
     // load contents of filename into Json::Value
 
     std::fstream stream;
     stream.open( filename.c_str(), std::ios::in );    // open for reading
+    if ( !stream.is_open() ) {
+        return false;
+    }
+
     std::string data( ( std::istreambuf_iterator<char>( stream ) ), std::istreambuf_iterator<char>() );    // read stream
     stream.close();
 
     Json::Reader reader;
-    reader.parse( data, result );
+    return reader.parse( data, result ) && result.isObject();
 }
 
 bool remove( const StringList& params )
diff --git a/Projects/slang-pkg/Common/Consts.h b/Projects/slang-pkg/Common/Consts.h
index 5d656c4..0d84b83 100644
--- a/Projects/slang-pkg/Common/Consts.h
+++ b/Projects/slang-pkg/Common/Consts.h
@@ -65,6 +65,7 @@ static const int32_t ERROR_ARCHITECTURE = 2;
 static const int32_t ERROR_MODULE_DIRECTORY = 3;
 static const int32_t ERROR_INDEX_UPDATE = 4;
 static const int32_t ERROR_COMMAND = 5;
+static const int32_t ERROR_CONFIG = 6;
 
 
 #endif
-- 
2.43.0


From 0cf2f70d455fcddf09eb370f344076033497bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:53 +0000
Subject: [PATCH 60/89] fix: use the module index after downloading it

The first install or upgrade downloaded the index but then looked modules up
in an empty one. A damaged index was taken for an empty one as well.
---
 .../slang-pkg/Application/Application.cpp     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 1c380ed..5561f72 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -715,6 +715,7 @@ void info( const StringList& params )
         collectLocalModuleData();
         if ( !prepareRemoteRepository() ) {
             update();
+            prepareRemoteRepository();
         }
 
         std::string moduleName;
@@ -802,6 +803,10 @@ bool install( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+
+        if ( !prepareRemoteRepository() ) {
+            return false;
+        }
     }
 
     std::cout << "Preparing dependencies..." << std::endl;
@@ -1155,10 +1160,12 @@ bool prepareRemoteRepository()
     }
 
     Json::Value config;
-    readJsonFile( filename, config );
 
     // process Json::Value in Repository
-    mRemoteRepository.processIndex( config );
+    if ( !readJsonFile( filename, config ) || !mRemoteRepository.processIndex( config ) ) {
+        std::cerr << "!!! Invalid module index in file \"" + filename + "\"" << std::endl;
+        return false;
+    }
 
     return true;
 }
@@ -1382,9 +1389,7 @@ void search( const StringList& params )
     }
 
     Json::Value config;
-    readJsonFile( filename, config );
-
-    if ( !config.isMember( "modules" ) ) {
+    if ( !readJsonFile( filename, config ) || !config.isMember( "modules" ) ) {
         std::cerr << "!!! Invalid cache file structure: \"modules\" missing" << std::endl;
         return;
     }
@@ -1501,6 +1506,10 @@ bool upgrade( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+
+        if ( !prepareRemoteRepository() ) {
+            return false;
+        }
     }
 
     Modules outdatedModules;
-- 
2.43.0


From 57f74915b8b5805b2c14e6bf9ce6d673987b7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:03 +0000
Subject: [PATCH 61/89] fix: install dependencies in the required versions

- Cyclic dependencies ended in an endless recursion.
- Installed modules satisfied a dependency in any version.
- The last module information downloaded decided about the version, not the
  highest required one.
- Maximum versions were ignored.
- Restrictions were only checked for requested modules.
- Dependencies without a minimum version were requested as 0.0.0.
---
 .../slang-pkg/Application/Application.cpp     | 113 ++++++++++++------
 Projects/slang-pkg/Common/Repository.cpp      |  11 ++
 Projects/slang-pkg/Common/Repository.h        |   2 +
 3 files changed, 90 insertions(+), 36 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 5561f72..96366b5 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -40,6 +40,7 @@ using namespace Slang;
 
 namespace {
 
+    bool checkDependencies( const Module& module );
     void checkOutdatedModules( Modules& outdatedModules );
     bool checkRestrictions( const Module& module );
     void cleanCache();
@@ -404,6 +405,28 @@ size_t write_data( void *ptr, size_t size, size_t nmemb, void *stream )
     return written;
 }
 
+/*
+ * checks the dependencies of a module against the versions that will be installed
+ */
+bool checkDependencies( const Module& module )
+{
+    for ( const auto& dependency : module.mDependencies ) {
+        Module tmp;
+
+        if ( !mMissingDependencies.getModule( dependency.Module, tmp ) && !mLocalRepository.getModule( dependency.Module, tmp ) ) {
+            return false;
+        }
+        if ( tmp.mVersion < dependency.MinVersion ) {
+            return false;
+        }
+        if ( !dependency.MaxVersion.empty() && SemanticVersionNumber( dependency.MaxVersion ) < tmp.mVersion ) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 void checkOutdatedModules( Modules& outdatedModules )
 {
     // compare new index.json with local module information:
@@ -465,6 +488,8 @@ void collectLocalModuleData()
 
     struct dirent* dirEntry = readdir( dir );
 
+    mLocalRepository = Repository( "local" );
+
     // add Slang version as virtually installed module to force correct dependencies
     // {
     Module slang;
@@ -811,6 +836,8 @@ bool install( const StringList& params )
 
     std::cout << "Preparing dependencies..." << std::endl;
 
+    mMissingDependencies = Repository( "missing" );
+
     bool forceVersion = mSettings.Force;
 
     for ( const auto& param : params ) {
@@ -839,51 +866,50 @@ bool install( const StringList& params )
 
     bool allowInstall = true;
 
-    // add all other requested modules to missing modules to prevent multiple installations of the same modules
+    // explicitly requested versions must not be replaced by the ones other modules depend on
     for ( const auto& param : params ) {
         std::string moduleName;
-        std::string source;
         std::string version;
 
         Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );
 
-        if ( version.empty() ) {
-            Module tmpModule;
-
-            if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
-                source = tmpModule.mSource;
-                version = tmpModule.mVersion.toString();
-            }
-        }
-        else {
-            forceVersion = true;
+        Module tmp;
+        if ( !version.empty() && mMissingDependencies.getModule( moduleName, tmp ) && tmp.mVersion != version ) {
+            allowInstall = false;
+            std::cout << "!!! Module " << moduleName << "( " << version << " ) cannot be installed because version " << tmp.mVersion.toString() << " is required" << std::endl;
         }
+    }
 
-        Module missingModule( moduleName, version, source );
+    auto missing = mMissingDependencies.getModules();
 
-        if ( !checkRestrictions( missingModule ) ) {
+    for ( const auto& moduleIt : missing ) {
+        if ( !checkRestrictions( moduleIt ) ) {
             allowInstall = false;
-            std::cout << "!!! Module " << missingModule.mShortName << "( " << missingModule.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
+            std::cout << "!!! Module " << moduleIt.mShortName << "( " << moduleIt.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
         }
 
-        mMissingDependencies.addModule( missingModule );
+        Module tmp;
+        if ( !forceVersion && mLocalRepository.getModule( moduleIt.mShortName, tmp ) && !( tmp.mVersion < moduleIt.mVersion ) ) {
+            std::cout << "Same or newer version ( " << tmp.mVersion.toString() << " vs " << moduleIt.mVersion.toString() << " ) of module \"" << moduleIt.mShortName << "\" already installed" << std::endl;
+            mMissingDependencies.removeModule( moduleIt );
+        }
     }
 
-    bool success = allowInstall;
-
-    if ( allowInstall ) {
-        auto missing = mMissingDependencies.getModules();
+    missing = mMissingDependencies.getModules();
 
+    if ( !mSettings.SkipDependencies ) {
         for ( const auto& moduleIt : missing ) {
-            Module tmp;
-
-            if ( mLocalRepository.getModule( moduleIt.mShortName, tmp ) ) {
-                if ( !forceVersion && !( tmp.mVersion < moduleIt.mVersion ) ) {
-                    std::cout << "Same or newer version ( " << tmp.mVersion.toString() << " vs " << moduleIt.mVersion.toString() << " ) of module \"" << moduleIt.mShortName << "\" already installed" << std::endl;
-                    continue;
-                }
+            if ( !checkDependencies( moduleIt ) ) {
+                allowInstall = false;
+                std::cout << "!!! Module " << moduleIt.mShortName << "( " << moduleIt.mVersion.toString() << " ) cannot be installed because its dependencies cannot be fulfilled" << std::endl;
             }
+        }
+    }
+
+    bool success = allowInstall;
 
+    if ( allowInstall ) {
+        for ( const auto& moduleIt : missing ) {
             if ( !installModule( mRemoteRepository.getURL(), moduleIt.mShortName ) ) {
                 success = false;
             }
@@ -1093,6 +1119,14 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
     // ( 2 ) collect dependencies from module information
     // ( 3 ) check dependencies against local repository and download module information for missing modules
 
+    Module planned;
+    if ( mMissingDependencies.getModule( installModule.mShortName, planned ) && !( planned.mVersion < installModule.mVersion ) ) {
+        // this or a newer version will be installed anyway
+        return true;
+    }
+
+    mMissingDependencies.replaceModule( installModule );
+
     auto path         = mSettings.LibraryFolder + CONFIG_CACHE_MODULES;
     auto filename     = installModule.mShortName + ".json";
     auto moduleConfig = path + filename;
@@ -1110,6 +1144,12 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
     }
 
     auto module = collectModuleData( path, filename );
+    if ( !( module == installModule ) || module.mVersion != installModule.mVersion ) {
+        std::cerr << "!!! Invalid module information for \"" << installModule.mShortName << "\" received" << std::endl;
+        return false;
+    }
+
+    mMissingDependencies.replaceModule( module );
 
     // check module architecture
     if ( !module.mArchitecture.empty() ) {
@@ -1119,17 +1159,11 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
         }
     }
 
-    auto localModules = mLocalRepository.getModules();
     for ( const auto& dependency : module.mDependencies ) {
-        bool found = false;
+        Module tmp;
 
         // look up dependency in already installed modules
-        for ( const auto& module : localModules ) {
-            if ( module.mShortName == dependency.Module ) {
-                found = true;
-                break;
-            }
-        }
+        bool found = mLocalRepository.getModule( dependency.Module, tmp ) && !( tmp.mVersion < dependency.MinVersion );
 
         if ( !found ) {
             // dependent module is not yet installed
@@ -1137,7 +1171,14 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
 
             Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
 
-            mMissingDependencies.addModule( dependent );
+            if ( dependency.MinVersion.empty() ) {
+                if ( mMissingDependencies.contains( dependent ) ) {
+                    // any version is fine
+                    continue;
+                }
+
+                mRemoteRepository.getModule( dependency.Module, dependent );
+            }
 
             if ( !prepareModuleInstallation( repo, dependent ) ) {
                 return false;
diff --git a/Projects/slang-pkg/Common/Repository.cpp b/Projects/slang-pkg/Common/Repository.cpp
index b0dbd62..75d09f2 100644
--- a/Projects/slang-pkg/Common/Repository.cpp
+++ b/Projects/slang-pkg/Common/Repository.cpp
@@ -51,6 +51,17 @@ bool Repository::getModule( const std::string& shortName, Module& module ) const
 	return false;
 }
 
+void Repository::removeModule( const Module& module )
+{
+	mModules.erase( module );
+}
+
+void Repository::replaceModule( const Module& module )
+{
+	mModules.erase( module );
+	mModules.insert( module );
+}
+
 bool Repository::processIndex( const Json::Value& value )
 {
 	if ( !value.isMember( "modules" ) ) {
diff --git a/Projects/slang-pkg/Common/Repository.h b/Projects/slang-pkg/Common/Repository.h
index bfae7bf..78cb986 100644
--- a/Projects/slang-pkg/Common/Repository.h
+++ b/Projects/slang-pkg/Common/Repository.h
@@ -36,6 +36,8 @@ public:
 	void addModule( const Module& module );
 	bool contains( const Module& module ) const;
 	bool getModule( const std::string& shortName, Module& module ) const;
+	void removeModule( const Module& module );
+	void replaceModule( const Module& module );
 
 	bool processIndex( const Json::Value& value );
 
-- 
2.43.0


From ecc2617bb770add5843322b7d2a4febf0e3659e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:03 +0000
Subject: [PATCH 62/89] fix: quote the arguments of shell commands

Names with blanks or other special characters made slang-pkg remove and
overwrite other files than the intended ones.
---
 .../slang-pkg/Application/Application.cpp     | 48 +++++++++++++------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 96366b5..3d91243 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -64,6 +64,7 @@ namespace {
     bool processRestrictions( const StringList& params );
     bool purge( const StringList& params );
     bool push( const StringList& params );
+    std::string quote( const std::string& argument );
     bool readJsonFile( const std::string& filename, Json::Value& result );
     bool remove( const StringList& params );
     void removeRestriction( const std::string& module );
@@ -472,7 +473,7 @@ void cleanCache()
 #endif
 
     for ( StringList::const_iterator it = mDownloadedFiles.begin(); it != mDownloadedFiles.end(); ++it ) {
-        execute( "rm " + ( *it ) );
+        execute( "rm " + quote( *it ) );
     }
 }
 
@@ -577,7 +578,7 @@ bool create( const StringList& params )
     {   // create version specific module information ( "<module>_<version>.json" )
         std::cout << "Creating module information \"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json\"" << std::endl;
 
-        if ( !execute( "cp " + path + "/" + filename + " " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" ) ) {
+        if ( !execute( "cp " + quote( path + "/" + filename ) + " " + quote( module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" ) ) ) {
             std::cerr << "!!! Failed to create module information" << std::endl;
             return false;
         }
@@ -585,7 +586,7 @@ bool create( const StringList& params )
     {   // create package ( "<module>_<version>.tar.gz" )
         std::cout << "Creating module package \"" << module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz\"" << std::endl;
 
-        if ( !execute( "tar --exclude-vcs -cjf " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz " + path ) ) {
+        if ( !execute( "tar --exclude-vcs -cjf " + quote( module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz" ) + " " + quote( path ) ) ) {
             std::cerr << "!!! Failed to create module package" << std::endl;
             return false;
         }
@@ -601,23 +602,23 @@ bool createLocalLibrary()
     // .slang folder for all repository configs etc.
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_FOLDER ) ) {
         // create folder for library config
-        execute( "mkdir " + mSettings.CurrentFolder + CONFIG_FOLDER );
+        execute( "mkdir " + quote( mSettings.CurrentFolder + CONFIG_FOLDER ) );
     }
 
     // .slang/apps/ folder to copy symlinks to
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_APPS ) ) {
         // create folder for library config
-        execute( "mkdir " + mSettings.CurrentFolder + CONFIG_APPS );
+        execute( "mkdir " + quote( mSettings.CurrentFolder + CONFIG_APPS ) );
     }
 
     // .slang/cache/modules" folder
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_MODULES ) ) {
-        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_MODULES );
+        execute( "mkdir -p " + quote( mSettings.CurrentFolder + CONFIG_CACHE_MODULES ) );
     }
 
     // .slang/cache/repositories" folder
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES ) ) {
-        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES );
+        execute( "mkdir -p " + quote( mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES ) );
     }
 
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_FILE ) ) {
@@ -967,18 +968,18 @@ bool installModule( const std::string& repo, const std::string& module )
     }
 
     // unpack only intact packages to leave an installed version alone
-    if ( !execute( "tar tf " + module_archive + " > /dev/null" ) ) {
+    if ( !execute( "tar tf " + quote( module_archive ) + " > /dev/null" ) ) {
         std::cerr << "!!! Package of module \"" << module << "\" is damaged" << std::endl;
         return false;
     }
 
-    if ( !execute( "tar xf " + module_archive + " -C " + mSettings.LibraryFolder ) ) {
+    if ( !execute( "tar xf " + quote( module_archive ) + " -C " + quote( mSettings.LibraryFolder ) ) ) {
         std::cerr << "!!! Failed to unpack module \"" << module << "\"" << std::endl;
         return false;
     }
 
     for ( const std::string& file : tmpModule.mTarget.InstalledFiles ) {
-        execute( CONFIG_SCRIPTS + "addLink.sh \"" + mSettings.LibraryFolder + "/" + module + "/" + file + "\" \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\"" );
+        execute( CONFIG_SCRIPTS + "addLink.sh " + quote( mSettings.LibraryFolder + "/" + module + "/" + file ) + " " + quote( mSettings.LibraryFolder + "/" + CONFIG_APPS ) );
     }
 
     return true;
@@ -1328,13 +1329,32 @@ bool push( const StringList& params )
         }
 
         // cleanup artifacts
-        execute( "rm " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" );
-        execute( "rm " + module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz" );
+        execute( "rm " + quote( module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".json" ) );
+        execute( "rm " + quote( module.mShortName + FILE_VERSION_SEPARATOR + module.mVersion.toString() + ".tar.gz" ) );
     }
 
     return success;
 }
 
+/*
+ * quotes an argument of a shell command
+ */
+std::string quote( const std::string& argument )
+{
+    std::string result = "'";
+
+    for ( auto c : argument ) {
+        if ( c == '\'' ) {
+            result += "'\\''";
+        }
+        else {
+            result += c;
+        }
+    }
+
+    return result + "'";
+}
+
 bool readJsonFile( const std::string& filename, Json::Value& result )
 {
     // load contents of filename into Json::Value
@@ -1377,8 +1397,8 @@ bool remove( const StringList& params )
 
                 std::cout << "Removing module \"" << localIt.mShortName << "\" from \"" << localIt.mTarget.Directory << "\"..." << std::endl;
 
-                execute( CONFIG_SCRIPTS + "removeLinks.sh \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\" \"" + mSettings.LibraryFolder + "/" + localIt.mShortName + "\"" );
-                if ( !execute( "rm -r " + localIt.mTarget.Directory ) ) {
+                execute( CONFIG_SCRIPTS + "removeLinks.sh " + quote( mSettings.LibraryFolder + "/" + CONFIG_APPS ) + " " + quote( mSettings.LibraryFolder + "/" + localIt.mShortName ) );
+                if ( !execute( "rm -r " + quote( localIt.mTarget.Directory ) ) ) {
                     success = false;
                     std::cerr << "!!! Failed to remove module \"" << localIt.mShortName << "\"" << std::endl;
                 }
-- 
2.43.0


From 7a9d42ac365f3dddc1f7c4a0eaf22af6bfda9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:03 +0000
Subject: [PATCH 63/89] fix: keep the restrictions of modules that could not be
 purged

Modules without a directory of their own are not removed any more.
---
 .../slang-pkg/Application/Application.cpp     | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 3d91243..1b0c6fc 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -68,7 +68,6 @@ namespace {
     bool readJsonFile( const std::string& filename, Json::Value& result );
     bool remove( const StringList& params );
     void removeRestriction( const std::string& module );
-    void removeRestriction( const StringList& params );
     void search( const StringList& params );
     bool storeConfig();
     bool writeJsonFile( const std::string& filename, Json::Value& result );
@@ -1252,8 +1251,8 @@ bool processRestrictions( const StringList& params )
 
 bool purge( const StringList& params )
 {
-    // ( 1 ) remove the configuration of the requested modules
-    // ( 2 ) remove the modules themselves
+    // ( 1 ) remove the modules themselves
+    // ( 2 ) remove the configuration of the modules that are not installed any more
     // ( 3 ) store configuration
 
     if ( mParameters.empty() ) {
@@ -1261,12 +1260,20 @@ bool purge( const StringList& params )
         return false;
     }
 
-    // ( 1 ) remove the module configurations from config.json
-    removeRestriction( params );
-
-    // ( 2 ) remove the modules ( if installed )
+    // ( 1 ) remove the modules ( if installed )
     bool success = remove( params );
 
+    // ( 2 ) remove the module configurations from config.json
+    collectLocalModuleData();
+
+    for ( const auto& param : params ) {
+        Module tmp;
+
+        if ( !mLocalRepository.getModule( param, tmp ) ) {
+            removeRestriction( param );
+        }
+    }
+
     // ( 3 ) store configuration
     return storeConfig() && success;
 }
@@ -1392,7 +1399,8 @@ bool remove( const StringList& params )
         bool found = false;
 
         for ( const auto& localIt : local ) {
-            if ( localIt.mShortName == param ) {
+            // virtual modules have no directory that could be removed
+            if ( localIt.mShortName == param && !localIt.mTarget.Directory.empty() ) {
                 found = true;
 
                 std::cout << "Removing module \"" << localIt.mShortName << "\" from \"" << localIt.mTarget.Directory << "\"..." << std::endl;
@@ -1420,21 +1428,6 @@ void removeRestriction( const std::string& module )
     restrictions.removeMember( module );
 }
 
-void removeRestriction( const StringList& params )
-{
-    // ( 1 ) check if the requested modules are actually installed
-    // ( 2 ) remove them by deleting their complete directory
-
-    if ( mParameters.empty() ) {
-        std::cerr << "!!! Invalid number of parameters" << std::endl;
-        return;
-    }
-
-    for ( const auto& param : params ) {
-        removeRestriction( param );
-    }
-}
-
 void search( const StringList& params )
 {
     // ( 1 ) load cached repositories from disk
-- 
2.43.0


From 955b4fcb797c6186b5076d7aa7b56ad637bff319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:03 +0000
Subject: [PATCH 64/89] fix: report failed uploads

---
 Projects/slang-pkg/Application/Application.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 1b0c6fc..fec2b89 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -1619,7 +1619,7 @@ size_t upload( const std::string& filename, const std::string& url, const std::s
 
     // Initialize libcurl
     CURL* curl = curl_easy_init();
-    CURLcode result;
+    CURLcode result = CURLE_FAILED_INIT;
     struct curl_slist *headers = nullptr;
 
     if ( curl ) {
@@ -1639,6 +1639,7 @@ size_t upload( const std::string& filename, const std::string& url, const std::s
             }
         }
         {   // set curl options
+            curl_easy_setopt( curl, CURLOPT_FAILONERROR, 1L );  // treat HTTP errors as failed transfers
             curl_easy_setopt( curl, CURLOPT_HTTPHEADER, headers );
             curl_easy_setopt( curl, CURLOPT_NOPROGRESS, 1L );  // disable progress meter, set to 0L to enable and disable debug output
             curl_easy_setopt( curl, CURLOPT_POST, 1L );
@@ -1679,7 +1680,7 @@ size_t upload( const std::string& filename, const std::string& url, const std::s
     }
 
     fclose( file );
-    return 0;
+    return result;
 }
 
 }
-- 
2.43.0


From 3799877a04108a8a27f2bfcc9c3d886f3c3f73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:03 +0000
Subject: [PATCH 65/89] fix: report invalid configuration and repository data

Values of an unexpected type ended slang-pkg with an uncaught exception.
---
 Projects/slang-pkg/Application/Application.cpp |  2 +-
 Projects/slang-pkg/main.cpp                    | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index fec2b89..b1e8a4e 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -1062,7 +1062,7 @@ void loadConfig()
         auto url = entry[ "url" ].asString();
 
         // make sure the URL ends with a slash
-        if ( url[ url.size() - 1 ] != '/' ) {
+        if ( url.empty() || url[ url.size() - 1 ] != '/' ) {
             url += '/';
         }
         // }
diff --git a/Projects/slang-pkg/main.cpp b/Projects/slang-pkg/main.cpp
index 9bd4d89..aca7c33 100644
--- a/Projects/slang-pkg/main.cpp
+++ b/Projects/slang-pkg/main.cpp
@@ -1,5 +1,8 @@
 
 // Library includes
+#include <cstdlib>
+#include <exception>
+#include <iostream>
 
 // Project includes
 #include <Application/Application.h>
@@ -35,8 +38,14 @@ int main( int argc, const char* argv[] )
 	// Memory leak detection
 #endif
 
-	Slang::Application app;
-	app.init( argc, argv );
+	try {
+		Slang::Application app;
+		app.init( argc, argv );
 
-	return app.exec();
+		return app.exec();
+	}
+	catch ( const std::exception& e ) {
+		std::cerr << "!!! " << e.what() << std::endl;
+		return EXIT_FAILURE;
+	}
 }
-- 
2.43.0


From 53df8b9e9890dd0c4cc52ec73fe63db772ccd26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:18 +0000
Subject: [PATCH 66/89] fix: run services in the thread that runs constructors

Constructors and destructors are always executed by the first thread.
Services got a thread of their own, so an exception thrown by a
constructor was not found there and the worker crashed without an answer.
---
 Projects/slang-app/Common/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-app/Common/Service.cpp b/Projects/slang-app/Common/Service.cpp
index 1110969..5c26e6c 100644
--- a/Projects/slang-app/Common/Service.cpp
+++ b/Projects/slang-app/Common/Service.cpp
@@ -43,7 +43,8 @@ bool Service::handleRequest( const FCGX_Request& request )
     if ( mScript ) {
         try {
             Slang::Runtime::Object result;
-            mScript->execute( Slang::Controller::Instance().threads()->createThread()->getId(), mEntryPoint, Slang::ParameterList(), &result );
+            // scripts are always executed by the first thread, it exists since the script has been loaded
+            mScript->execute( Slang::Controller::Instance().threads()->getThread( 0 )->getId(), mEntryPoint, Slang::ParameterList(), &result );
         }
         catch ( std::exception &e ) {	// catch every std::exception and all derived exception types
             OSerror( e.what() );
-- 
2.43.0


From dadab2348d101f2dc21379438bc29d101117c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:18 +0000
Subject: [PATCH 67/89] fix: answer requests without path, method, URI or query

Web servers do not have to send these parameters. The worker crashed if
one of them was missing.
---
 Projects/slang-app/Application/Application.cpp | 3 ++-
 Projects/slang-app/Common/Service.cpp          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Projects/slang-app/Application/Application.cpp b/Projects/slang-app/Application/Application.cpp
index b57ea67..653d394 100644
--- a/Projects/slang-app/Application/Application.cpp
+++ b/Projects/slang-app/Application/Application.cpp
@@ -78,7 +78,8 @@ int Application::exec()
         if ( pid == 0 ) {
             bool requestHandled{ false };
 
-            const std::string servicePath{ FCGX_GetParam( "PATH_INFO", request.envp ) };
+            const char* pathInfo = FCGX_GetParam( "PATH_INFO", request.envp );
+            const std::string servicePath{ pathInfo ? pathInfo : "" };
 
             if ( servicePath.empty() ) {
                 if ( mSettings.DefaultService ) {
diff --git a/Projects/slang-app/Common/Service.cpp b/Projects/slang-app/Common/Service.cpp
index 5c26e6c..453560a 100644
--- a/Projects/slang-app/Common/Service.cpp
+++ b/Projects/slang-app/Common/Service.cpp
@@ -91,8 +91,8 @@ void Service::prepareEnvironment( const FCGX_Request& request )
     setenv_s( "HTTP_USER_AGENT",       request );
 
     setenv_s( "REQUEST_SCHEME",        request );
-    setenv( "REQUEST_METHOD",          requestMethod, 1 );
-    setenv( "REQUEST_URI",             requestUri, 1 );
+    setenv( "REQUEST_METHOD",          requestMethod ? requestMethod : "", 1 );
+    setenv( "REQUEST_URI",             requestUri ? requestUri : "", 1 );
     setenv_s( "DOCUMENT_URI",          request );
     setenv_s( "REQUEST_FILENAME",      request );
     setenv_s( "SCRIPT_FILENAME",       request );
@@ -100,7 +100,7 @@ void Service::prepareEnvironment( const FCGX_Request& request )
     setenv_s( "SCRIPT_USER",           request );
     setenv_s( "SCRIPT_GROUP",          request );
     setenv_s( "PATH_INFO",             request );
-    setenv( "QUERY_STRING",            queryString, 1 );
+    setenv( "QUERY_STRING",            queryString ? queryString : "", 1 );
     setenv_s( "IS_SUBREQ",             request );
     setenv_s( "THE_REQUEST",           request );
     setenv_s( "REMOTE_ADDR",           request );
-- 
2.43.0


From fc32f65a5b1320d11a61d8908c8c6ab78dd675d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:18 +0000
Subject: [PATCH 68/89] fix: answer requests with an error if their script
 fails

The output written until the exception was sent as a regular response.
---
 Projects/slang-app/Common/Service.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Projects/slang-app/Common/Service.cpp b/Projects/slang-app/Common/Service.cpp
index 453560a..3878f78 100644
--- a/Projects/slang-app/Common/Service.cpp
+++ b/Projects/slang-app/Common/Service.cpp
@@ -37,6 +37,8 @@ bool Service::handleRequest( const FCGX_Request& request )
 {
     prepareEnvironment( request );
 
+    bool success{ true };
+
     const std::stringstream stream;
     auto* old = std::cout.rdbuf( stream.rdbuf() );
 
@@ -47,9 +49,11 @@ bool Service::handleRequest( const FCGX_Request& request )
             mScript->execute( Slang::Controller::Instance().threads()->getThread( 0 )->getId(), mEntryPoint, Slang::ParameterList(), &result );
         }
         catch ( std::exception &e ) {	// catch every std::exception and all derived exception types
+            success = false;
             OSerror( e.what() );
         }
         catch ( ... ) {	// catch everything
+            success = false;
             OSerror( "uncaught exception detected!" );
         }
     }
@@ -57,6 +61,13 @@ bool Service::handleRequest( const FCGX_Request& request )
     std::cout.rdbuf( old );
     auto output = stream.str();
 
+    if ( !success ) {
+        // don't send the part that has been written until then as if it was a complete response
+        output = "Status: 500 Internal Server Error\r\n"
+                 "Content-Type: text/plain\r\n\r\n"
+                 "500 - Internal server error\n";
+    }
+
     std::cout << output << '\n';
 
     FCGX_PutStr( output.c_str(), static_cast<int32_t>( output.size() ), request.out );
-- 
2.43.0


From c7351ab928657156e6481ec71ec1634b8d7bf692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:18 +0000
Subject: [PATCH 69/89] fix: answer each request exactly once

Accepting a request finishes the previous one, so the server sent a second
end of request after the one of the worker, which confuses web servers that
keep connections open. If no worker could be created the server waited for
any other process instead of answering. Requests whose worker died were
ended without a response.
---
 .../slang-app/Application/Application.cpp     | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-app/Application/Application.cpp b/Projects/slang-app/Application/Application.cpp
index 653d394..6039cd2 100644
--- a/Projects/slang-app/Application/Application.cpp
+++ b/Projects/slang-app/Application/Application.cpp
@@ -3,6 +3,7 @@
 #include "Application.h"
 
 // Library includes
+#include <cerrno>
 #include <cstdlib>
 #include <cstdio>
 #include <iostream>
@@ -39,6 +40,7 @@
 
 namespace {
 
+    void handle_error( FCGX_Stream *out );
     void handle_not_found( FCGX_Stream *out );
     void readJsonFile( const std::string& filename, Json::Value& result );
 
@@ -106,8 +108,22 @@ int Application::exec()
             FCGX_Finish_r( &request );
             exit( 0 );
         }
+
+        int status{ 0 };
+        while ( pid > 0 && waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {
+            // interrupted, the worker is still running
+        }
+
+        if ( pid < 0 || status != 0 ) {
+            OSerror( "request could not be handled by a worker" );
+
+            handle_error( request.out );
+
+            FCGX_Finish_r( &request );
+        }
         else {
-            waitpid( pid, nullptr, 0 );
+            // already answered by the worker, accepting the next request must not finish it again
+            FCGX_Free( &request, !request.keepConnection );
         }
     }
 
@@ -310,6 +326,13 @@ void Application::processParameters( int argc, const char* argv[] )
 
 namespace {
 
+    void handle_error( FCGX_Stream *out )
+    {
+        FCGX_FPrintF( out, "Status: 500 Internal Server Error\r\n" );
+        FCGX_FPrintF( out, "Content-Type: text/plain\r\n\r\n" );
+        FCGX_FPrintF( out, "500 - Internal server error\n" );
+    }
+
     void handle_not_found( FCGX_Stream *out )
     {
         FCGX_FPrintF( out, "Status: 404 Not Found\r\n" );
-- 
2.43.0


From 82157760f01a20f31079f81470ca652c2f896994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:22 +0000
Subject: [PATCH 70/89] fix: let scripts use the handle of temporary files

tmpfile was declared as a function without result, so the handle it
opened could neither be used nor closed.
---
 Projects/Extensions/LIBC/stdio/tmpfile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index af89b02..6e19531 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -14,7 +14,7 @@
 #endif
 
 // Project includes
-#include <Core/Designtime/BuildInTypes/VoidType.h>
+#include <Core/Designtime/BuildInTypes/Int32Type.h>
 #include <Core/Extensions/ExtensionMethod.h>
 #include <Core/Runtime/BuildInTypes/Int32Type.h>
 #include "stdio.hpp"
@@ -34,7 +34,7 @@ class TMPFILE : public ExtensionMethod
 {
 public:
 	TMPFILE()
-	: ExtensionMethod(0, "tmpfile", Designtime::VoidType::TYPENAME)
+	: ExtensionMethod(0, "tmpfile", Designtime::Int32Type::TYPENAME)
 	{
 		ParameterList params;
 
-- 
2.43.0


From 0d433e0056b13dbc099a3515c34553411b590e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:48 +0000
Subject: [PATCH 71/89] fix: run a destructor only once when it refers to its
 own object

A destructor that copied 'this' into a variable or passed it to a method
started over again and again, since dropping that reference deleted the
object another time.
---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 967fee5..1890f3e 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -75,6 +75,9 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
+		// references to the object that come and go inside of its destructor must not delete it again
+		it->second.mCount++;
+
 		it->second.mObject->Destructor();
 
 		delete it->second.mObject;
-- 
2.43.0


From 1a5e01a6367766b245c11b3cf80540c12e792c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:48 +0000
Subject: [PATCH 72/89] fix: resolve the target of an assignment after its
 value is known

The expression on the right side can replace the object whose member is
assigned, the assignment then wrote to memory that was already released.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index ecf538a..d0a9c8d 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -115,12 +115,13 @@ void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
 
 void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Runtime::Object* result)
 {
-	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
-
 	Runtime::Object right;
 	// evaluate right expression
 	evaluate(exp->mRHS, &right);
 
+	// the right expression may have replaced the object that holds our lvalue
+	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
+
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
 
@@ -1018,12 +1019,13 @@ void TreeInterpreter::visitAssert(AssertStatement* assertStmt)
 
 void TreeInterpreter::visitAssignment(AssignmentStatement* node)
 {
-	Runtime::Object& lvalue = resolveLValue( getScope(), dynamic_cast<SymbolExpression*>( node->mLeftExpression ), false, Visibility::Designtime );
-
 	Runtime::Object right;
 	// evaluate right expression
 	tryControl(evaluate(node->mRightExpression, &right));
 
+	// the right expression may have replaced the object that holds our lvalue
+	Runtime::Object& lvalue = resolveLValue( getScope(), dynamic_cast<SymbolExpression*>( node->mLeftExpression ), false, Visibility::Designtime );
+
 	// execute assignment to lvalue (this may involve a type cast)
 	tryControl(Runtime::operator_binary_assign(&lvalue, &right));
 }
-- 
2.43.0


From 810583ea84734becf52839a891d653fd8f18c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:14 +0000
Subject: [PATCH 73/89] fix: keep an object alive while one of its methods runs

A method that replaced the last reference to its own object, for example
a global variable, went on with an object that was already deleted.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 20 ++++++++++++++------
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d0a9c8d..41cb91f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -293,9 +293,11 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 
 	IScope* scope = getScope();
 
-	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
+	Runtime::Object owner;	// keeps the called object alive in case its method drops the last reference to it
+
+	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private, &owner);
 	if ( !methodSymbol ) {
-		methodSymbol = resolveMethod(getEnclosingMethodScope(scope), exp->mSymbolExpression, params, Visibility::Private);
+		methodSymbol = resolveMethod(getEnclosingMethodScope(scope), exp->mSymbolExpression, params, Visibility::Private, &owner);
 	}
 	if ( !methodSymbol ) {
 		auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
@@ -937,7 +939,7 @@ Symbol* TreeInterpreter::resolveRValue(IScope *scope, SymbolExpression *symbol,
 	return scope->resolve(symbol->mName, onlyCurrentScope, visibility);
 }
 
-MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility) const
+MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, Runtime::Object* owner) const
 {
 	if ( !scope ) {
 		throw Runtime::Exceptions::InvalidSymbol("invalid scope provided");
@@ -963,9 +965,15 @@ MethodSymbol* TreeInterpreter::resolveMethod(IScope* scope, SymbolExpression* sy
 			case Symbol::IType::NamespaceSymbol:
 				scope = dynamic_cast<Common::Namespace*>(child);
 				break;
-			case Symbol::IType::ObjectSymbol:
-				scope = dynamic_cast<Runtime::Object*>(child);
-				break;
+			case Symbol::IType::ObjectSymbol: {
+				auto* object = dynamic_cast<Runtime::Object*>(child);
+
+				if ( object->getReference().isValid() ) {
+					*owner = *object;
+				}
+
+				scope = object;
+			} break;
 			case Symbol::IType::MethodSymbol:
 				throw Runtime::Exceptions::InvalidSymbol("invalid symbol type found: " + symbol->toString());
 		}
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index c78a51e..5780b9e 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -115,7 +115,7 @@ private:
 	Runtime::Object& resolveLValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 	Symbol* resolveRValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 
-	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility) const;
+	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, Runtime::Object* owner) const;
 
 private:	// Initialization
 	void finalize();
-- 
2.43.0


From 8769b8d1b3b419090d61c2547a6e0d9a866dba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:42 +0000
Subject: [PATCH 74/89] fix: report an integer division by zero instead of
 crashing

Dividing by zero, or taking the remainder, killed the interpreter. So did
dividing the smallest number by -1.
---
 .../Core/Runtime/BuildInTypes/Int16Type.cpp     | 16 ++++++++++++++--
 .../Core/Runtime/BuildInTypes/Int32Type.cpp     | 16 ++++++++++++++--
 .../Core/Runtime/BuildInTypes/Int64Type.cpp     | 17 +++++++++++++++--
 3 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..017e21b 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,13 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		const int32_t divisor = static_cast<int16_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( static_cast<int32_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +271,13 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		const int32_t divisor = static_cast<int16_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( static_cast<int32_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..005a478 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,7 +150,13 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		const int64_t divisor = static_cast<int32_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( static_cast<int64_t>( mValue.toInt() ) / divisor );
 		return;
 	}
 
@@ -265,7 +271,13 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		const int64_t divisor = static_cast<int32_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( static_cast<int64_t>( mValue.toInt() ) % divisor );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..27c405a 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -150,7 +150,14 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		// the smallest value has no positive counterpart, it stays the same
+		mValue = divisor == -1 ? static_cast<int64_t>( 0ULL - mValue.toInt() ) : mValue.toInt() / divisor;
 		return;
 	}
 
@@ -265,7 +272,13 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = divisor == -1 ? static_cast<int64_t>( 0 ) : mValue.toInt() % divisor;
 		return;
 	}
 
-- 
2.43.0


From 645eb3e3ffe48daaf4abffd29e2d97a8d1ed1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:42 +0000
Subject: [PATCH 75/89] fix: let scripts handle failing operators and accesses
 through null

Errors of built-in operations like a division by zero or an assignment to
a member of a null object ended the whole program, no handler or finally
block of the script got to run. They are raised as exceptions now, the
same way failing library functions are.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 78 +++++++++++++++-------
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 41cb91f..dfb16af 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -95,21 +95,31 @@ void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
 		throw Common::Exceptions::Exception("not a valid expression type set");
 	}
 
-	switch ( dynamic_cast<Expression*>(exp)->getExpressionType() ) {
-		case Expression::ExpressionType::AssignmentExpression: evaluateAssignmentExpression(dynamic_cast<AssignmentExpression*>(exp), result); break;
-		case Expression::ExpressionType::BinaryExpression:     evaluateBinaryExpression(dynamic_cast<BinaryExpression*>(exp), result); break;
-		case Expression::ExpressionType::CopyExpression:       evaluateCopyExpression(dynamic_cast<CopyExpression*>(exp), result); break;
-		case Expression::ExpressionType::IsExpression:         evaluateIsExpression(dynamic_cast<IsExpression*>(exp), result); break;
-		case Expression::ExpressionType::LiteralExpression:    evaluateLiteral(dynamic_cast<LiteralExpression*>(exp), result); break;
-		case Expression::ExpressionType::MethodExpression:     evaluateMethodExpression(dynamic_cast<MethodExpression*>(exp), result); break;
-		case Expression::ExpressionType::NewExpression:        evaluateNewExpression(dynamic_cast<NewExpression*>(exp), result); break;
-		case Expression::ExpressionType::ScopeExpression:      evaluateScopeExpression(dynamic_cast<ScopeExpression*>(exp), result); break;
-		case Expression::ExpressionType::StringEvalExpression: evaluateStringEvalExpression(dynamic_cast<StringEvalExpression*>(exp), result, getScope()); break;
-		case Expression::ExpressionType::SymbolExpression:     evaluateSymbolExpression(dynamic_cast<SymbolExpression *>(exp), result, getScope()); break;
-		case Expression::ExpressionType::TernaryExpression:    evaluateTernaryExpression(dynamic_cast<TernaryExpression*>(exp), result); break;
-		case Expression::ExpressionType::TypecastExpression:   evaluateTypeCastExpression(dynamic_cast<TypecastExpression*>(exp), result); break;
-		case Expression::ExpressionType::TypeidExpression:     evaluateTypeidExpression(dynamic_cast<TypeidExpression*>(exp), result); break;
-		case Expression::ExpressionType::UnaryExpression:      evaluateUnaryExpression(dynamic_cast<UnaryExpression*>(exp), result); break;
+	try {
+		switch ( dynamic_cast<Expression*>(exp)->getExpressionType() ) {
+			case Expression::ExpressionType::AssignmentExpression: evaluateAssignmentExpression(dynamic_cast<AssignmentExpression*>(exp), result); break;
+			case Expression::ExpressionType::BinaryExpression:     evaluateBinaryExpression(dynamic_cast<BinaryExpression*>(exp), result); break;
+			case Expression::ExpressionType::CopyExpression:       evaluateCopyExpression(dynamic_cast<CopyExpression*>(exp), result); break;
+			case Expression::ExpressionType::IsExpression:         evaluateIsExpression(dynamic_cast<IsExpression*>(exp), result); break;
+			case Expression::ExpressionType::LiteralExpression:    evaluateLiteral(dynamic_cast<LiteralExpression*>(exp), result); break;
+			case Expression::ExpressionType::MethodExpression:     evaluateMethodExpression(dynamic_cast<MethodExpression*>(exp), result); break;
+			case Expression::ExpressionType::NewExpression:        evaluateNewExpression(dynamic_cast<NewExpression*>(exp), result); break;
+			case Expression::ExpressionType::ScopeExpression:      evaluateScopeExpression(dynamic_cast<ScopeExpression*>(exp), result); break;
+			case Expression::ExpressionType::StringEvalExpression: evaluateStringEvalExpression(dynamic_cast<StringEvalExpression*>(exp), result, getScope()); break;
+			case Expression::ExpressionType::SymbolExpression:     evaluateSymbolExpression(dynamic_cast<SymbolExpression *>(exp), result, getScope()); break;
+			case Expression::ExpressionType::TernaryExpression:    evaluateTernaryExpression(dynamic_cast<TernaryExpression*>(exp), result); break;
+			case Expression::ExpressionType::TypecastExpression:   evaluateTypeCastExpression(dynamic_cast<TypecastExpression*>(exp), result); break;
+			case Expression::ExpressionType::TypeidExpression:     evaluateTypeidExpression(dynamic_cast<TypeidExpression*>(exp), result); break;
+			case Expression::ExpressionType::UnaryExpression:      evaluateUnaryExpression(dynamic_cast<UnaryExpression*>(exp), result); break;
+		}
+	}
+	catch ( Runtime::Exceptions::AssertionFailed& ) {
+		throw;								// failed assertions end the program
+	}
+	catch ( Runtime::Exceptions::RuntimeException& e ) {
+		raise(e.what());
+
+		throw Runtime::ControlFlow::Throw;	// promote control flow
 	}
 }
 
@@ -893,6 +903,14 @@ void TreeInterpreter::pushScope(IScope* scope)
 	mFrame->pushScope(scope, allowDelete, true);
 }
 
+void TreeInterpreter::raise(const std::string& message)
+{
+	auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
+	*data = Runtime::StringType( message );
+
+	mThread->exception( Runtime::ExceptionData( data, Token().position() ) );
+}
+
 Runtime::Object& TreeInterpreter::resolveLValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const
 {
 	auto* result = dynamic_cast<Runtime::Object*>(resolveRValue(scope, symbol, onlyCurrentScope, visibility));
@@ -995,16 +1013,26 @@ void TreeInterpreter::visit(Node* node)
 		return;
 	}
 
-	switch ( node->getNodeType() ) {
-		case Node::NodeType::Expression:
-			visitExpression(dynamic_cast<Expression*>(node));
-			break;
-		case Node::NodeType::Operator:
-			visitOperator(dynamic_cast<Operator*>(node));
-			break;
-		case Node::NodeType::Statement:
-			visitStatement(dynamic_cast<Statement*>(node));
-			break;
+	try {
+		switch ( node->getNodeType() ) {
+			case Node::NodeType::Expression:
+				visitExpression(dynamic_cast<Expression*>(node));
+				break;
+			case Node::NodeType::Operator:
+				visitOperator(dynamic_cast<Operator*>(node));
+				break;
+			case Node::NodeType::Statement:
+				visitStatement(dynamic_cast<Statement*>(node));
+				break;
+		}
+	}
+	catch ( Runtime::Exceptions::AssertionFailed& ) {
+		throw;		// failed assertions end the program
+	}
+	catch ( Runtime::Exceptions::RuntimeException& e ) {
+		raise(e.what());
+
+		mControlFlow = Runtime::ControlFlow::Throw;
 	}
 }
 
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 5780b9e..d8d3a63 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -112,6 +112,8 @@ private:
 
 	std::string printExpression(Node* node) const;
 
+	void raise(const std::string& message);
+
 	Runtime::Object& resolveLValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 	Symbol* resolveRValue(IScope *scope, SymbolExpression *symbol, bool onlyCurrentScope, Visibility::E visibility) const;
 
-- 
2.43.0


From 5c7e77c2662800deaccbae4c9c19cac3ba5c1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:18 +0000
Subject: [PATCH 76/89] fix: release the value of a return that a finally block
 abandons

When a finally block left by an exception, break or continue, the value
of the interrupted return stayed alive until the function ended.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index dfb16af..b989e20 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1490,6 +1490,10 @@ void TreeInterpreter::visitTry(TryStatement* node)
 			mThread->exception(pendingException);
 			mFrame->returnValue() = pendingResult;
 		}
+		else if ( mControlFlow != Runtime::ControlFlow::Return ) {
+			// the return has been abandoned, so its value must not live on
+			mFrame->returnValue() = Runtime::Object();
+		}
 	}
 
 	// reset control flow to previous state if not set differently by finally statement
-- 
2.43.0


From 01e225363137871e907f2581eca733d5a95f8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:50:59 +0000
Subject: [PATCH 77/89] fix: do not reach the members of an object through a
 member that is null

An object member that was never set passed every access on to the object
it belongs to, so reading or writing through it silently used the wrong
object instead of raising an exception.
---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 980e1c7..1ba0448 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -345,7 +345,10 @@ Runtime::Object* Repository::createUserType(const std::string& name, Designtime:
 			symbol->setLanguageFeatureState(blue->getLanguageFeatureState());
 			symbol->setMember(blue->isMember());
 			symbol->setMutability(blue->getMutability());
-			symbol->setParent(object);
+			if ( symbol->isAtomicType() ) {
+				// a member that is null must not give access to the members of its owner
+				symbol->setParent(object);
+			}
 			symbol->setValue(blue->getValue());
 			symbol->setVisibility(blue->getVisibility());
 
-- 
2.43.0


From 85c6f2b4af511ff458a98b040b0811b33423df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:21:58 +0000
Subject: [PATCH 78/89] fix: evaluate the expression of a switch statement that
 has no cases

The expression was only evaluated when there was a case to compare it
with. With nothing but a default, whatever the expression does was
skipped.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b989e20..db7b0ae 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1359,9 +1359,7 @@ void TreeInterpreter::visitSwitch(SwitchStatement* node)
 		bool caseMatched = false;
 
 		// evaluate the switch expression, this needs to be done each time because the value could have changed in the meantime
-		if ( !node->mCaseStatements.empty() ) {
-			tryControl(evaluate(node->mExpression, &value));
-		}
+		tryControl(evaluate(node->mExpression, &value));
 
 		// loop over all case statements
 		for ( auto& stmt : node->mCaseStatements ) {
-- 
2.43.0


From a6a3b9c3aeb5493079ae2fb9b8475f241b37e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:18 +0000
Subject: [PATCH 79/89] fix: keep the exception in flight when a destructor
 throws

A destructor that ended by an exception replaced the value of the exception
(or the exit status) that was on its way when the object was released.
---
 Projects/Core/Core/Object.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index ae483e7..1fac3c5 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -227,7 +227,16 @@ ControlFlow::E Object::Destructor()
 		if ( destructor ) {
 			VoidType tmp;
 
-			controlflow = Controller::Instance().thread(0)->execute(mThis, destructor, params, &tmp);
+			auto* thread = Controller::Instance().thread(0);
+
+			// an exception or an exit status that is already on its way must not be replaced by an exception of the destructor
+			const ExceptionData pendingException = thread->exception();
+
+			controlflow = thread->execute(mThis, destructor, params, &tmp);
+
+			if ( controlflow != ControlFlow::ExitProgram ) {
+				thread->exception(pendingException);
+			}
 
 			if ( controlflow != ControlFlow::Normal ) {
 				return controlflow;
-- 
2.43.0


From 7ae48207d85136cbdad0a708bb9e9d2a7192e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:29 +0000
Subject: [PATCH 80/89] fix: let exit inside a destructor end the program

The exit statement only ended the destructor, the program continued behind
the point where the object had been released.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp    | 30 ++++++++++++++++++-
 Projects/Core/Core/AST/TreeInterpreter.h      |  1 +
 Projects/Core/Core/Object.cpp                 |  7 +++--
 .../Core/Core/VirtualMachine/Controller.cpp   |  1 +
 Projects/Core/Core/VirtualMachine/Threads.cpp | 29 ++++++++++++++++--
 Projects/Core/Core/VirtualMachine/Threads.h   |  7 +++++
 .../Core/VirtualMachine/VirtualMachine.cpp    |  1 +
 7 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index db7b0ae..3b8e9b2 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -324,7 +324,11 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 	auto* method = dynamic_cast<Common::Method*>(methodSymbol);
 	assert(method);
 
-	if ( method->isExtensionMethod() ) {
+	if ( mThread->isExitRequested() ) {
+		// a destructor wants to exit the program
+		exitProgram();
+	}
+	else if ( method->isExtensionMethod() ) {
 		try {
 			dynamic_cast<Extensions::ExtensionMethod*>( method )->execute( params, result );
 
@@ -666,9 +670,22 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 	// finalize & pop scope
 	finalize();
 
+	// releasing our scope might have executed a destructor
+	if ( mThread->isExitRequested() ) {
+		exitProgram();
+	}
+
 	return mControlFlow;
 }
 
+void TreeInterpreter::exitProgram()
+{
+	// an exit statement inside of a destructor also ends those who released its object
+	mThread->exception(mThread->exitData());
+
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
+}
+
 void TreeInterpreter::finalize()
 {
 	// unwind stack
@@ -1273,6 +1290,12 @@ void TreeInterpreter::visitReturn(ReturnStatement* node)
 
 void TreeInterpreter::visitStatement(Statement *node)
 {
+	if ( mThread->isExitRequested() ) {
+		// a destructor wants to exit the program
+		exitProgram();
+		return;
+	}
+
 	// notify debugger, blocks don't count since they start with the first of their statements
 	if ( node->getStatementType() != Statement::StatementType::Statements ) {
 		tryControl( DEBUGGER( notify(getScope(), node->token()) ) );
@@ -1421,6 +1444,11 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
+	if ( mThread->isExitRequested() ) {
+		// a destructor wants to exit the program
+		exitProgram();
+	}
+
 	// execute exception handling only if an exception occurred and catch statements are present
 	if ( mControlFlow == Runtime::ControlFlow::Throw ) {
 		if ( node->mCatchStatements.empty() ) {
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index d8d3a63..bea655b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -120,6 +120,7 @@ private:
 	MethodSymbol* resolveMethod(IScope* scope, SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility, Runtime::Object* owner) const;
 
 private:	// Initialization
+	void exitProgram();
 	void finalize();
 	void initialize(IScope* scope, const ParameterList& params);
 
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 1fac3c5..f1e762e 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -234,10 +234,13 @@ ControlFlow::E Object::Destructor()
 
 			controlflow = thread->execute(mThis, destructor, params, &tmp);
 
-			if ( controlflow != ControlFlow::ExitProgram ) {
-				thread->exception(pendingException);
+			if ( controlflow == ControlFlow::ExitProgram ) {
+				// whoever released this object has to stop as well
+				thread->requestExit(thread->exception());
 			}
 
+			thread->exception(pendingException);
+
 			if ( controlflow != ControlFlow::Normal ) {
 				return controlflow;
 			}
diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index bdc00e5..985287f 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -30,6 +30,7 @@ void Controller::deinit()
 	// release all exceptions and global objects as long as everything their destructors may use is still available
 	mThreads->clearExceptions();
 	mGlobalScope->clearObjects();
+	mThreads->clearExceptions();
 	mMemory->deinit();
 
 	delete mGlobalScope;
diff --git a/Projects/Core/Core/VirtualMachine/Threads.cpp b/Projects/Core/Core/VirtualMachine/Threads.cpp
index 029f55c..077c22f 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.cpp
+++ b/Projects/Core/Core/VirtualMachine/Threads.cpp
@@ -19,13 +19,15 @@ namespace Slang {
 
 
 Thread::Thread()
-: mId(0),
+: mExitRequested(false),
+  mId(0),
   mState(State::Starting)
 {
 }
 
 Thread::Thread(ThreadId id)
-: mId(id),
+: mExitRequested(false),
+  mId(id),
   mState(State::Starting)
 {
 }
@@ -37,6 +39,12 @@ Thread::~Thread()
 	}
 }
 
+void Thread::clearExit()
+{
+	mExitData = Runtime::ExceptionData();
+	mExitRequested = false;
+}
+
 StackFrame* Thread::currentFrame() const
 {
 	if ( mStackFrames.empty() ) {
@@ -83,6 +91,11 @@ void Thread::exception(Runtime::Object* data, const Common::Position& position)
 	exception(Runtime::ExceptionData(data, position, stackTrace()));
 }
 
+Runtime::ExceptionData& Thread::exitData()
+{
+	return mExitData;
+}
+
 StackFrame* Thread::frame(FrameId frameId) const
 {
 	size_t idx = 0;
@@ -115,6 +128,11 @@ void Thread::init()
 	mState = State::Started;
 }
 
+bool Thread::isExitRequested() const
+{
+	return mExitRequested;
+}
+
 void Thread::popFrame()
 {
 	StackFrame* frame = mStackFrames.back();
@@ -145,6 +163,12 @@ void Thread::pushFrame(IScope* scope, const TokenList& tokens, const ParameterLi
 	mStackFrames.push_back(frame);
 }
 
+void Thread::requestExit(const Runtime::ExceptionData& data)
+{
+	mExitData = data;
+	mExitRequested = true;
+}
+
 std::string Thread::stackTrace() const
 {
 	std::stringstream ss;
@@ -161,6 +185,7 @@ void Threads::clearExceptions()
 {
 	for ( auto& thread : mThreads ) {
 		thread.second->exception(Runtime::ExceptionData());
+		thread.second->clearExit();
 	}
 }
 
diff --git a/Projects/Core/Core/VirtualMachine/Threads.h b/Projects/Core/Core/VirtualMachine/Threads.h
index d37a24b..95570d2 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.h
+++ b/Projects/Core/Core/VirtualMachine/Threads.h
@@ -73,6 +73,11 @@ public:	// StackFrame specificas
 	void exception(Runtime::ExceptionData data);
 	void exception(Runtime::Object* data, const Common::Position& position = Common::Position());
 
+	void clearExit();
+	Runtime::ExceptionData& exitData();
+	bool isExitRequested() const;
+	void requestExit(const Runtime::ExceptionData& data);
+
 	void popFrame();
 	void pushFrame(IScope* scope, const TokenList& tokens, const ParameterList& params);
 
@@ -81,6 +86,8 @@ private:
 
 private:
 	Runtime::ExceptionData mExceptionData;
+	Runtime::ExceptionData mExitData;
+	bool mExitRequested;
 	ThreadId mId;
 	StackFrames mStackFrames;
 	State::E mState;
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 7a1be40..2303912 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -445,6 +445,7 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	auto* thread = threads->getNumThreads() ? threads->getThread( 0 ) : threads->createThread();
 
 	auto controlflow = thread->execute(nullptr, main, params, result);
+	thread->clearExit();
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
 		throw Runtime::ControlFlow::Throw;
 	}
-- 
2.43.0


From 36454885cca8b512d678e07ab758dbcabb71e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:37 +0000
Subject: [PATCH 81/89] fix: keep links of other modules when a module is
 removed

The script also removed the links of modules whose name starts with the name
of the removed one.
---
 Bundle/scripts/removeLinks.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bundle/scripts/removeLinks.sh b/Bundle/scripts/removeLinks.sh
index b832d6a..8065f6e 100755
--- a/Bundle/scripts/removeLinks.sh
+++ b/Bundle/scripts/removeLinks.sh
@@ -19,7 +19,7 @@ b=$(readlink "$b")
 
 find "$a" -type l | while read -r link; do
     target=$(realpath "$link" 2>/dev/null)
-    if [ -n "$target" ] && [[ "$target" == "$b"* ]]; then
+    if [ -n "$target" ] && [[ "$target" == "$b"/* ]]; then
         echo "Removing symlink $link -> $target"
         rm "${link}"
     fi
-- 
2.43.0


From 6c4eb1a3e5aca930474b0ad73f772a32d87b6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:41 +0000
Subject: [PATCH 82/89] fix: wait for keys when the keyboard is set to blocking

Both modes used the settings of the non-blocking one.
---
 Projects/Extensions/System/System.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/System.cpp b/Projects/Extensions/System/System.cpp
index 3091da1..336526c 100644
--- a/Projects/Extensions/System/System.cpp
+++ b/Projects/Extensions/System/System.cpp
@@ -36,7 +36,7 @@ void SetKeyboardBlocking()
 	new_settings.c_lflag &= ~ICANON;
 	new_settings.c_lflag &= ~ECHO;
 	new_settings.c_lflag &= ~ISIG;
-	new_settings.c_cc[VMIN] = 0;
+	new_settings.c_cc[VMIN] = 1;
 	new_settings.c_cc[VTIME] = 0;
 
 	tcsetattr(0, TCSANOW, &new_settings);
-- 
2.43.0


From 0aae8becb12937c67a03862b797cc76e572bded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:42 +0000
Subject: [PATCH 83/89] fix: let getchar see keys pressed after it found none

The end-of-file state of standard input was kept, so with a non-blocking
keyboard no key was ever reported after the first unsuccessful call.
---
 Projects/Extensions/LIBC/stdio/getchar.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Extensions/LIBC/stdio/getchar.h b/Projects/Extensions/LIBC/stdio/getchar.h
index c42b2cf..f6e2d17 100644
--- a/Projects/Extensions/LIBC/stdio/getchar.h
+++ b/Projects/Extensions/LIBC/stdio/getchar.h
@@ -44,6 +44,9 @@ public:
 	{
 		ParameterList list = mergeParameters(params);
 
+		// with a non-blocking keyboard there might be input again after there was none
+		clearerr( stdin );
+
 		*result = Runtime::Int32Type( getchar() );
 
 		return Runtime::ControlFlow::Normal;
-- 
2.43.0


From eb2947ca8a93b4f4a159acc7aaad3d79daf2502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:36 +0000
Subject: [PATCH 84/89] fix: count the script itself in the arguments of an
 automatically started program

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 4b54227..78cd09a 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -819,7 +819,7 @@ void LocalClient::prepare(  const StringList& tokens  )
 	}
 
 	mParameters.clear();
-	mParameters.push_back(  Parameter::CreateRuntime(  Runtime::Int32Type::TYPENAME, static_cast<int32_t>(  tokens.size()  )  )  );
+	mParameters.push_back(  Parameter::CreateRuntime(  Runtime::Int32Type::TYPENAME, static_cast<int32_t>(  tokens.empty() ? 1 : tokens.size()  )  )  );
 	mParameters.push_back(  Parameter::CreateRuntime(  Runtime::StringType::TYPENAME, paramStr  )  );
 }
 
-- 
2.43.0


From 018fa05ac853f6224d0f112e71117f77190c3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:26 +0000
Subject: [PATCH 85/89] fix: go on with the program if a breakpoint condition
 contains no valid literal

A number the tokenizer rejects ended the debugged program when the
breakpoint was reached.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 78cd09a..4cd4259 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -105,7 +105,13 @@ bool LocalClient::addLiteralSymbol( const std::string& name, const std::string&
 	}
 
 	Tokenizer t( "", value + " " );		// a token is complete as soon as it is followed by something else
-	t.process();
+	try {
+		t.process();
+	}
+	catch (  std::exception&  ) {
+		// not a literal, this must not affect the program
+		return false;
+	}
 
 	Symbol* symbol = nullptr;
 
-- 
2.43.0


From 336bf608472ddebbbcc47c5c62fdc624577ecf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:44 +0000
Subject: [PATCH 86/89] fix: keep the type of a variable modified in the
 debugger

The text given to modify was stored as it was, so a bool printed as
'true' instead of 1 afterwards.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 4cd4259..e4e8e2c 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -20,6 +20,7 @@
 #include <Core/Runtime/BuildInTypes/Int32Type.h>
 #include <Core/Runtime/BuildInTypes/Int64Type.h>
 #include <Core/Runtime/BuildInTypes/StringType.h>
+#include <Core/Runtime/OperatorOverloading.h>
 #include <Core/Runtime/Script.h>
 #include <Core/VirtualMachine/Controller.h>
 #include <Core/VirtualMachine/VirtualMachine.h>
@@ -704,7 +705,16 @@ bool LocalClient::modifySymbol( const StringList& tokens )
 		return false;
 	}
 
-	object->setValue( Runtime::AtomicValue( ( *it ) ) );
+	// the value has to be of the type of the variable
+	Runtime::StringType text( ( *it ) );
+
+	if (  object->QualifiedTypename() != Runtime::StringType::TYPENAME && addLiteralSymbol( ( *it ), ( *it ) )  ) {
+		Runtime::operator_binary_assign( object, dynamic_cast<Runtime::Object*>( getCachedSymbol( ( *it ) ) ) );
+	}
+	else {
+		Runtime::operator_binary_assign( object, &text );
+	}
+
 	return true;
 }
 
-- 
2.43.0


From a0682ea1af7ab3905c00ef29df0499d9e3ae0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:05:35 +0000
Subject: [PATCH 87/89] fix: order versions that differ only in their label

Two versions with different labels, such as 1.0.0-alpha and 1.0.0-beta,
were each reported as older than the other. Installs then ignored newer
versions and refused versions inside the declared limits.
---
 Projects/Utils/SemVer/Version.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..6197d0b 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,7 +69,12 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
-				return !mLabel.empty();
+				// a version with a label precedes the one without, labels are compared with each other
+				if ( mLabel.empty() || other.mLabel.empty() ) {
+					return !mLabel.empty();
+				}
+
+				return mLabel < other.mLabel;
 			}
 
 			return mBugfix < other.mBugfix;
-- 
2.43.0


From 09824fc23adebb5df6b66ac5620264805f970806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:44:28 +0000
Subject: [PATCH 88/89] fix: let handlers of generic types catch their
 exceptions

The type arguments of a handler were ignored when it was compared with
the type of the exception, so catch ( Box<int> b ) never matched.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 3b8e9b2..af284d2 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1462,9 +1462,13 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
 			// check if we have a catch-block with a given type that matches the thrown exception type
-			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
-				// exception type does not match
-				continue;
+			if ( stmt->mTypeDeclaration ) {
+				const auto type = Designtime::Parser::buildRuntimeConstraintTypename(stmt->mTypeDeclaration->mType, stmt->mTypeDeclaration->mConstraints);
+
+				if ( !exception || !exception->isInstanceOf(type) ) {
+					// exception type does not match
+					continue;
+				}
 			}
 
 			// push a new scope to be able to clean up the exception variable
-- 
2.43.0


From 4b497eb951178ec6a3423a573952afe72a9fafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:13:44 +0000
Subject: [PATCH 89/89] fix: refuse to bind or connect to invalid addresses and
 ports

Addresses that could not be parsed were taken for 0.0.0.0 and ports were cut to 16 bits.
Both are reported as failures now. An IPv6 address without a host stands for any IPv6 address.
---
 Projects/Extensions/System/Network/Bind.h    | 19 ++++++++++++++++---
 Projects/Extensions/System/Network/Connect.h | 19 ++++++++++++++++---
 Projects/Library/System/Network/Socket.os    |  2 +-
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/Projects/Extensions/System/Network/Bind.h b/Projects/Extensions/System/Network/Bind.h
index 479b82e..6ad74c3 100644
--- a/Projects/Extensions/System/Network/Bind.h
+++ b/Projects/Extensions/System/Network/Bind.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <cerrno>
 #include <sys/types.h>
 #ifdef _MSC_VER
 #	include <winsock.h>
@@ -82,7 +83,13 @@ private:
 #ifdef _MSC_VER
 #else
 		auto address = static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString();
-		auto port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+		auto port_number = static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt();
+		if ( port_number < 0 || port_number > 65535 ) {
+			errno = EINVAL;
+			return -1;
+		}
+
+		auto port = htons( static_cast<in_port_t>( port_number ) );
 #endif
 
 		// set sa_family, sa_address and sa_port
@@ -94,7 +101,10 @@ private:
 				addr->sin_family = AF_INET;
 #ifdef _MSC_VER
 #else
-				inet_pton(AF_INET, address.c_str(), &addr->sin_addr);
+				if ( inet_pton(AF_INET, address.c_str(), &addr->sin_addr) != 1 ) {
+					errno = EINVAL;
+					return -1;
+				}
 				addr->sin_port = port;
 #endif
 			} break;
@@ -105,7 +115,10 @@ private:
 				addr_size = sizeof( sockaddr_in6 );
 
 				addr->sin6_family = AF_INET6;
-				inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr);
+				if ( inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr) != 1 ) {
+					errno = EINVAL;
+					return -1;
+				}
 				addr->sin6_port = port;
 			} break;
 #endif
diff --git a/Projects/Extensions/System/Network/Connect.h b/Projects/Extensions/System/Network/Connect.h
index ca8b890..5a94608 100644
--- a/Projects/Extensions/System/Network/Connect.h
+++ b/Projects/Extensions/System/Network/Connect.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <cerrno>
 #include <sys/types.h>
 #ifdef _MSC_VER
 #	include <winsock.h>
@@ -77,7 +78,13 @@ private:
 #ifdef _MSC_VER
 #else
 		auto address = static_cast<Runtime::StringType*>(addressSymbol)->getValue().toStdString();
-		auto port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+		auto port_number = static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt();
+		if ( port_number < 0 || port_number > 65535 ) {
+			errno = EINVAL;
+			return -1;
+		}
+
+		auto port = htons( static_cast<in_port_t>( port_number ) );
 #endif
 
 		// set sa_family, sa_address and sa_port
@@ -89,7 +96,10 @@ private:
 				addr->sin_family = AF_INET;
 #ifdef _MSC_VER
 #else
-				inet_pton(AF_INET, address.c_str(), &addr->sin_addr);
+				if ( inet_pton(AF_INET, address.c_str(), &addr->sin_addr) != 1 ) {
+					errno = EINVAL;
+					return -1;
+				}
 				addr->sin_port = port;
 #endif
 			} break;
@@ -100,7 +110,10 @@ private:
 				addr_size = sizeof( sockaddr_in6 );
 
 				addr->sin6_family = AF_INET6;
-				inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr);
+				if ( inet_pton(AF_INET6, address.c_str(), &addr->sin6_addr) != 1 ) {
+					errno = EINVAL;
+					return -1;
+				}
 				addr->sin6_port = port;
 			} break;
 #endif
diff --git a/Projects/Library/System/Network/Socket.os b/Projects/Library/System/Network/Socket.os
index 8c910c0..e66c012 100644
--- a/Projects/Library/System/Network/Socket.os
+++ b/Projects/Library/System/Network/Socket.os
@@ -24,7 +24,7 @@ public stable object IPv6Address const implements ISocketAddress {
 	public int _sa_family const;
 
 	public void Constructor(string address, int port) {
-		_sa_address = address ? address : INADDR_ANY;
+		_sa_address = address ? address : "::";
 		_sa_family = AF_INET6;
 		_sa_port = port;
 	}
-- 
2.43.0

