From 27b896c06d6b59efd4b434843be9b0b4f045911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 01/11] fix: NuPatch has one uniform value per segment, not per
 segment corner

The validator and the C interface expected (nuseg+1)*(nvseg+1) values for a
uniform parameter of NuPatch.  The RenderMan specification and the core
(CqSurfaceNURBS::cUniform) have nuseg*nvseg, so valid input was rejected and
parameters passed through the C interface were read past their end.
---
 libs/riutil/ri.xml             | 2 +-
 libs/riutil/ri2ricxx.cpp       | 2 +-
 libs/riutil/ricxx_validate.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..d647b5c 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -2254,7 +2254,7 @@
 			</Arguments>
 			<Rib/>
 			<IClassLengths>
-				<Uniform>(1+nu-uorder+1)*(1+nv-vorder+1)</Uniform>
+				<Uniform>(1+nu-uorder)*(1+nv-vorder)</Uniform>
 				<Varying>(1+nu-uorder+1)*(1+nv-vorder+1)</Varying>
 				<Vertex>nu*nv</Vertex>
 			</IClassLengths>
diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..c1a49a3 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -1175,7 +1175,7 @@ RtVoid RiNuPatchV(RtInt nu, RtInt uorder, RtFloat uknot_in[], RtFloat umin, RtFl
     Ri::FloatArray uknot(uknot_in, nu+uorder);
     Ri::FloatArray vknot(vknot_in, nv+vorder);
     IClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..06afd98 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -1510,7 +1510,7 @@ RtVoid RiCxxValidate::NuPatch(RtInt nu, RtInt uorder, const FloatArray& uknot,
         );
     }
     SqInterpClassCounts iclassCounts(1,1,1,1,1);
-    iclassCounts.uniform = (1+nu-uorder+1)*(1+nv-vorder+1);
+    iclassCounts.uniform = (1+nu-uorder)*(1+nv-vorder);
     iclassCounts.varying = (1+nu-uorder+1)*(1+nv-vorder+1);
     iclassCounts.vertex = nu*nv;
     iclassCounts.facevarying = iclassCounts.varying;
-- 
2.43.0


From ba2c8cafb798b52f68328a468d79ebf2f8890cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 02/11] fix: RIB writer used a dangling pointer for inline
 declarations

The string returned by fmt.str() is a temporary, so the token pointed to
freed memory by the time it was printed.
---
 libs/riutil/ribwriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..e57f473 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,14 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineDecl;
                 if(useInlineDecl)
                 {
                     // Format inline declarations.
+                    std::ostringstream fmt;
                     fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    inlineDecl = fmt.str();
+                    token = inlineDecl.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 9cb4c1c2a9a71802aaa780ca8d04c10513ac1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 03/11] fix: parameter names must not move when further names
 are stored

Names with trailing whitespace are copied into a container whose elements'
c_str() is kept in the parameter list; with a vector the pointers of earlier
(short) names dangled once the vector grew.
---
 libs/riutil/ri2ricxx.cpp     | 5 ++++-
 libs/riutil/ribparser_impl.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index c1a49a3..14e7bc9 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -36,6 +36,7 @@
 
 #include <aqsis/riutil/ri2ricxx.h>
 
+#include <deque>
 #include <vector>
 #include <set>
 #include <stack>
@@ -200,7 +201,8 @@ void riToRiCxxEnd()
 namespace {
 
 std::vector<Ri::Param> g_pList;
-std::vector<std::string> g_nameStorage;
+// A deque, since g_pList keeps pointers into the stored names.
+std::deque<std::string> g_nameStorage;
 
 // Build a Ri::ParamList from the corresponding C API (count,tokens[],values[])
 //
@@ -213,6 +215,7 @@ Ri::ParamList buildParamList(RtInt count, RtToken tokens[], RtPointer values[],
     if(count == 0)
         return Ri::ParamList();
     g_pList.clear();
+    g_nameStorage.clear();
     for(int i = 0; i < count; ++i)
     {
         const char* nameBegin = 0;
diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index 7b98c37..42766c7 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -39,6 +39,8 @@
 
 #include <aqsis/aqsis.h>
 
+#include <deque>
+
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 
@@ -205,7 +207,8 @@ class RibParserImpl : public RibParser
 
         // Storage for parameter list parsing
         std::vector<Ri::Param> m_paramListStorage;
-        std::vector<std::string> m_paramNameStorage;
+        // A deque, since parameters keep pointers into the stored names.
+        std::deque<std::string> m_paramNameStorage;
 
         /// Number of color components
         int m_numColorComps;
-- 
2.43.0


From 3ed9656fc128fb1ce8d4d4da3b2c8634ce897d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 04/11] fix: nested IfBegin/IfEnd forgot that the enclosing
 clause was true

After a nested conditional whose condition is false, the Else (or a true
ElseIf) of an enclosing conditional was activated although its If clause had
already been taken.
---
 libs/riutil/renderutil_filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..61ec626 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -61,6 +61,7 @@ class RenderUtilFilter : public Ri::Filter
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
         std::stack<bool> m_ifInactiveStack;
+        std::stack<bool> m_trueClauseStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -108,6 +109,7 @@ class RenderUtilFilter : public Ri::Filter
             m_inObject(false),
             m_ifElseTest(conditionTest),
             m_ifInactiveStack(),
+            m_trueClauseStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -245,6 +247,7 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 m_ifInactiveStack.push(m_ifInactive);
+                m_trueClauseStack.push(m_trueClauseFound);
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -316,6 +319,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 m_ifInactive = m_ifInactiveStack.top();
                 m_ifInactiveStack.pop();
+                m_trueClauseFound = m_trueClauseStack.top();
+                m_trueClauseStack.pop();
             }
         }
 
-- 
2.43.0


From 7607b2ba00a2926cebfbbc221f8e9103fd1363b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 05/11] fix: ElseIf or Else without IfBegin read an empty stack

---
 libs/riutil/renderutil_filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 61ec626..3d3e92e 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -266,8 +266,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().ElseIf(condition);
                     return;
                 }
-                // If previous level conditional was inactive, just return.
-                if(m_ifInactiveStack.top())
+                // If previous level conditional was inactive, just return.  Also
+                // ignore an ElseIf without IfBegin.
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 if(m_trueClauseFound)
                 {
@@ -295,7 +296,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
-                if(m_ifInactiveStack.top())
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 // Else clause is activated when we haven't found a true
                 // If/ElseIf clause yet
-- 
2.43.0


From d886f704f716edd89c169ccc74ef6bea88c8165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:20 +0000
Subject: [PATCH 06/11] fix: keep a cached archive or object alive while it
 replays

An archive or object that is redefined by one of its own requests was deleted
in the middle of its replay.
---
 libs/riutil/renderutil_filter.cpp | 42 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 3d3e92e..263c642 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,12 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        //
+        // The streams are shared so that one which is redefined by one of its
+        // own requests stays alive until its replay is finished.
+        typedef std::vector<boost::shared_ptr<CachedRiStream> > StreamCache;
+        StreamCache m_archives;
+        StreamCache m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -69,7 +75,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(StreamCache& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -81,7 +87,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(StreamCache& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -89,14 +95,14 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(boost::shared_ptr<CachedRiStream>(
+                                    new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -114,14 +120,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -160,7 +158,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                boost::shared_ptr<CachedRiStream> stream = m_archives[index];
+                stream->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -218,7 +219,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                boost::shared_ptr<CachedRiStream> stream = m_objectInstances[index];
+                stream->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From 447b9936b51a33e3bc7c07832d38aadaf49fcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:48 +0000
Subject: [PATCH 07/11] fix: RiMotionBegin with a negative count let an
 exception out of the C interface

The vector of times was made outside the exception guard, so the caller got
std::length_error (and terminate, for a C caller) instead of an error report.
---
 libs/riutil/ri2ricxx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index 14e7bc9..55b7ec5 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -1889,14 +1889,16 @@ RtArchiveHandle RiArchiveBegin(RtToken name, ...)
 extern "C"
 RtVoid RiMotionBegin(RtInt N, ...)
 {
+    EXCEPTION_TRY_GUARD
+    std::vector<RtFloat> times(N);
     va_list args;
     va_start(args, N);
-    std::vector<RtFloat> times(N);
     for(int i = 0; i < N; ++i)
         times[i] = va_arg(args, double);
     va_end(args);
 
     return RiMotionBeginV(N, N == 0 ? 0 : &times[0]);
+    EXCEPTION_CATCH_GUARD("MotionBegin")
 }
 
 // ArchiveRecord is also an oddball.
-- 
2.43.0


From c17002260671e17cc75b2442800341bfe304e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:48 +0000
Subject: [PATCH 08/11] fix: ri2rib RiBegin kept a dangling context when the
 output cannot be opened

A following RiEnd deleted it a second time.
---
 libs/ri2rib/ri2rib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/ri2rib/ri2rib.cpp b/libs/ri2rib/ri2rib.cpp
index dc008ac..1f3c3d5 100644
--- a/libs/ri2rib/ri2rib.cpp
+++ b/libs/ri2rib/ri2rib.cpp
@@ -148,6 +148,7 @@ AQSIS_RI_SHARE RtVoid RiBegin(RtToken name)
         if(!g_context->outFile)
         {
             delete g_context;
+            g_context = 0;
             return;
         }
         outStream = &g_context->outFile;
-- 
2.43.0


From 0cad5be35bdd852f821701b441de3209fd84df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:42 +0000
Subject: [PATCH 09/11] fix: pop the RIB input however parseStream is left

An exception raised while an erroneous request was being reported or
skipped (by the error handler, or by the renderer while receiving a
comment) left the stream on the lexer's input stack, so the next parse
read from a destroyed stream.
---
 libs/riutil/ribparser.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/libs/riutil/ribparser.cpp b/libs/riutil/ribparser.cpp
index a9e3231..792da3f 100644
--- a/libs/riutil/ribparser.cpp
+++ b/libs/riutil/ribparser.cpp
@@ -205,13 +205,33 @@ class CommentCallback
                 m_renderer.ArchiveRecord("comment", str);
         }
 };
+
+/// Keeps a stream on the lexer input stack until the end of the scope.
+class ScopedInput
+{
+    private:
+        RibLexer& m_lex;
+    public:
+        ScopedInput(RibLexer& lex, std::istream& ribStream,
+                    const std::string& streamName, Ri::Renderer& renderer)
+            : m_lex(lex)
+        {
+            m_lex.pushInput(ribStream, streamName, CommentCallback(renderer));
+        }
+        ~ScopedInput()
+        {
+            m_lex.popInput();
+        }
+};
 } // anon. namespace
 
 void RibParserImpl::parseStream(std::istream& ribStream,
                             const std::string& streamName,
                             Ri::Renderer& renderer)
 {
-    m_lex->pushInput(ribStream, streamName, CommentCallback(renderer));
+    // The stream has to be popped however we leave: errors may also come from
+    // the error handler or from comments found while discarding tokens.
+    ScopedInput input(*m_lex, ribStream, streamName, renderer);
     while(true)
     {
         const char* requestName = 0;
@@ -248,15 +268,7 @@ void RibParserImpl::parseStream(std::istream& ribStream,
             }
             m_lex->discardUntilRequest();
         }
-        catch(...)
-        {
-            // Other errors should pass through, but we should make sure to pop
-            // the stream first!
-            m_lex->popInput();
-            throw;
-        }
     }
-    m_lex->popInput();
 }
 
 namespace { // Handler helpers
-- 
2.43.0


From fc9ee7f94763ddb8bfabe262a6fa4e20dd3b8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 10/11] fix: arguments of a request were overwritten while it
 parsed a nested stream

The lexer's buffers and the parser's parameter list storage are reused for
every request, including those of a stream parsed from inside a request
(ReadArchive, procedurals). The strings, arrays and parameter list of the
outer request were overwritten or freed while it was still being processed.
---
 libs/riutil/riblexer.cpp    |  8 ++++++++
 libs/riutil/riblexer_impl.h | 27 ++++++++++++++++++++++++---
 libs/riutil/ribparser.cpp   | 22 ++++++++++++++++++++++
 3 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/riblexer.cpp b/libs/riutil/riblexer.cpp
index e562f9f..713e234 100644
--- a/libs/riutil/riblexer.cpp
+++ b/libs/riutil/riblexer.cpp
@@ -87,11 +87,19 @@ void RibLexerImpl::pushInput(std::istream& inStream, const std::string& streamNa
                              const CommentCallback& callback)
 {
     m_tokenizer.pushInput(inStream, streamName, callback);
+    m_floatArrayPool.pushInput();
+    m_intArrayPool.pushInput();
+    m_stringArrayPool.pushInput();
+    m_stringPool.pushInput();
 }
 
 void RibLexerImpl::popInput()
 {
     m_tokenizer.popInput();
+    m_floatArrayPool.popInput();
+    m_intArrayPool.popInput();
+    m_stringArrayPool.popInput();
+    m_stringPool.popInput();
 }
 
 const char* RibLexerImpl::nextRequest()
diff --git a/libs/riutil/riblexer_impl.h b/libs/riutil/riblexer_impl.h
index 61a3d87..873a675 100644
--- a/libs/riutil/riblexer_impl.h
+++ b/libs/riutil/riblexer_impl.h
@@ -38,6 +38,7 @@
 
 #include "riblexer.h"
 
+#include <utility>
 #include <vector>
 #include <boost/ptr_container/ptr_vector.hpp>
 
@@ -99,8 +100,12 @@ class RibLexerImpl : public RibLexer
                 boost::ptr_vector<BufferT > m_buffers;
                 /// Index of next available buffer.
                 size_t m_next;
+                /// Index of the first buffer belonging to the current input.
+                size_t m_first;
+                /// Saved (m_first, m_next) for each of the outer inputs.
+                std::vector<std::pair<size_t, size_t> > m_outer;
             public:
-                BufferPool() : m_buffers(), m_next(0) { }
+                BufferPool() : m_buffers(), m_next(0), m_first(0), m_outer() { }
                 /// Get the next available buffer from the pool.
                 BufferT& getBuf()
                 {
@@ -111,8 +116,24 @@ class RibLexerImpl : public RibLexer
                     buf.clear();
                     return buf;
                 }
-                /// Mark all buffers in the pool as unused.
-                void markUnused() { m_next = 0; }
+                /// Mark all buffers of the current input as unused.
+                void markUnused() { m_next = m_first; }
+                /// Start a nested input.
+                ///
+                /// The buffers in use belong to the request being processed in
+                /// the outer input, and must be left alone until popInput().
+                void pushInput()
+                {
+                    m_outer.push_back(std::make_pair(m_first, m_next));
+                    m_first = m_next;
+                }
+                /// Return to the outer input.
+                void popInput()
+                {
+                    m_first = m_outer.back().first;
+                    m_next = m_outer.back().second;
+                    m_outer.pop_back();
+                }
         };
 
         void tokenError(const char* expected, const RibToken& badTok);
diff --git a/libs/riutil/ribparser.cpp b/libs/riutil/ribparser.cpp
index 792da3f..b8569d3 100644
--- a/libs/riutil/ribparser.cpp
+++ b/libs/riutil/ribparser.cpp
@@ -223,6 +223,24 @@ class ScopedInput
             m_lex.popInput();
         }
 };
+
+/// Sets a container aside until the end of the scope, leaving an empty one.
+template<typename T>
+class ScopedSetAside
+{
+    private:
+        T& m_current;
+        T m_saved;
+    public:
+        ScopedSetAside(T& current) : m_current(current), m_saved()
+        {
+            m_current.swap(m_saved);
+        }
+        ~ScopedSetAside()
+        {
+            m_current.swap(m_saved);
+        }
+};
 } // anon. namespace
 
 void RibParserImpl::parseStream(std::istream& ribStream,
@@ -232,6 +250,10 @@ void RibParserImpl::parseStream(std::istream& ribStream,
     // The stream has to be popped however we leave: errors may also come from
     // the error handler or from comments found while discarding tokens.
     ScopedInput input(*m_lex, ribStream, streamName, renderer);
+    // We may be called by a request of an outer stream; its parameter list has
+    // to stay valid.
+    ScopedSetAside<std::vector<Ri::Param> > outerParams(m_paramListStorage);
+    ScopedSetAside<std::deque<std::string> > outerNames(m_paramNameStorage);
     while(true)
     {
         const char* requestName = 0;
-- 
2.43.0


From 81c9f9f6ce59f563366bbdb312126a7bd7e23c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:11 +0000
Subject: [PATCH 11/11] fix: three shader opcodes never released a popped stack
 entry

---
 libs/shadervm/shadervm2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/shadervm/shadervm2.cpp b/libs/shadervm/shadervm2.cpp
index 6a387b6..ceb8f07 100644
--- a/libs/shadervm/shadervm2.cpp
+++ b/libs/shadervm/shadervm2.cpp
@@ -1083,6 +1083,7 @@ void CqShaderVM::SO_init_illuminance2()
 	}
 	Push( pResult );
 	RELEASE( A );
+	RELEASE( B );
 }
 
 void CqShaderVM::SO_advance_illuminance()
@@ -1239,6 +1240,7 @@ void CqShaderVM::SO_textureinfo()
 		m_pEnv->SO_textureinfo( Val, DataInfo, pV, pResult );
 	Push( pResult );
 	RELEASE( Val );
+	RELEASE( DataInfo );
 }
 
 void CqShaderVM::SO_incident()
@@ -1681,6 +1683,7 @@ void CqShaderVM::SO_rayinfo()
 	if(m_pEnv->IsRunning())
 		m_pEnv->SO_rayinfo( DataInfo, pV, pResult );
 	Push( pResult );
+	RELEASE( DataInfo );
 }
 
 void CqShaderVM::SO_bake3d()
-- 
2.43.0

