From f0cf155f75eb55d59c720057e2c160142e7b7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:03 +0000
Subject: [PATCH 001/118] fix: keep inline declaration string alive while
 writing RIB parameters

The token pointer was taken from a temporary std::string, so parameters with
inline declarations could be written with a garbage name.
---
 libs/riutil/ribwriter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..37429cc 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,13 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineDecl;
                 if(useInlineDecl)
                 {
-                    // Format inline declarations.
-                    fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    // Format inline declarations.  The formatted string needs
+                    // to outlive "token".
+                    inlineDecl = tokenString(param);
+                    token = inlineDecl.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 95054368080af519532c1ae2a62586bc2c80a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:03 +0000
Subject: [PATCH 002/118] fix: keep parameter names valid while parsing a RIB
 parameter list

Names with trailing whitespace are copied, but growing the vector holding the
copies invalidated pointers to those already stored.
---
 libs/riutil/ribparser_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index 7b98c37..8a1ad55 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -39,6 +39,8 @@
 
 #include <aqsis/aqsis.h>
 
+#include <deque>
+
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 
@@ -205,7 +207,7 @@ class RibParserImpl : public RibParser
 
         // Storage for parameter list parsing
         std::vector<Ri::Param> m_paramListStorage;
-        std::vector<std::string> m_paramNameStorage;
+        std::deque<std::string> m_paramNameStorage; // deque: addresses must stay valid
 
         /// Number of color components
         int m_numColorComps;
-- 
2.43.0


From 4dd1f26f4c67b3a6ce52760fea2c3bd4365285f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 003/118] fix: keep binary RIB request and string codes per
 input stream

Encodings defined by a nested archive stayed active after the archive was
popped, so a binary RIB which read another binary archive decoded its own
remaining requests with the archive's table.
---
 libs/riutil/ribtokenizer.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 684adcb..77e0ca9 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -59,17 +59,23 @@ struct RibTokenizer::InputState
 	RibToken nextTok;
 	bool haveNext;
 	CommentCallback commentCallback;
+	std::vector<std::string> encodedRequests;
+	EncodedStringMap encodedStrings;
 
 	InputState(std::istream& inStream, const std::string& streamName,
 			const SourcePos& currPos, const SourcePos& nextPos,
 			const RibToken& nextTok, bool haveNext,
-			const CommentCallback& callback)
+			const CommentCallback& callback,
+			const std::vector<std::string>& encodedRequests,
+			const EncodedStringMap& encodedStrings)
 		: inBuf(inStream, streamName),
 		currPos(currPos),
 		nextPos(nextPos),
 		nextTok(nextTok),
 		haveNext(haveNext),
-		commentCallback(callback)
+		commentCallback(callback),
+		encodedRequests(encodedRequests),
+		encodedStrings(encodedStrings)
 	{ }
 };
 
@@ -94,7 +100,8 @@ void RibTokenizer::pushInput(std::istream& inStream, const std::string& streamNa
 {
 	m_inputStack.push( boost::shared_ptr<InputState>(
 				new InputState(inStream, streamName, m_currPos, m_nextPos,
-					m_nextTok, m_haveNext, m_commentCallback)) );
+					m_nextTok, m_haveNext, m_commentCallback,
+					m_encodedRequests, m_encodedStrings)) );
 	m_inBuf = &m_inputStack.top()->inBuf;
 	m_currPos = SourcePos(1,1);
 	m_nextPos = SourcePos(1,1);
@@ -106,12 +113,14 @@ void RibTokenizer::popInput()
 {
 	assert(!m_inputStack.empty());
 	// Restore the current state to the state before the previous pushInput()
-	const InputState& restoreState = *m_inputStack.top();
+	InputState& restoreState = *m_inputStack.top();
 	m_currPos = restoreState.currPos;
 	m_nextPos = restoreState.nextPos;
 	m_nextTok = restoreState.nextTok;
 	m_haveNext = restoreState.haveNext;
 	m_commentCallback = restoreState.commentCallback;
+	m_encodedRequests.swap(restoreState.encodedRequests);
+	m_encodedStrings.swap(restoreState.encodedStrings);
 	// Pop the stack, and restore the buffer
 	m_inputStack.pop();
 	if(!m_inputStack.empty())
@@ -301,8 +310,6 @@ void RibTokenizer::scanNext(RibToken& tok)
 								  "request definition");
 						return;
 					}
-					// FIXME: m_encodedRequests should be part of the
-					// pushed/popped state.
 					m_encodedRequests[code] = tok.stringVal();
 				}
 				break;
-- 
2.43.0


From 34d8b012b5f97bd5b5f4fffa7f4f9a60efe72a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 004/118] fix: reject RIB colors with fewer than three
 components

After ColorSamples with fewer than three samples, Color and Opacity handed the
renderer an RtColor backed by a shorter (possibly empty) array.
---
 libs/riutil/ribparser.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ribparser.cpp b/libs/riutil/ribparser.cpp
index a9e3231..d70b2ec 100644
--- a/libs/riutil/ribparser.cpp
+++ b/libs/riutil/ribparser.cpp
@@ -272,6 +272,18 @@ inline const T& toFloatBasedType(Ri::FloatArray a,
 }
 
 
+// Convert a float array into a color
+//
+// Ri::Renderer::Color() and friends always receive three components, so a
+// ColorSamples request which leaves us with fewer can't be passed on.
+inline RtConstColor& toColor(Ri::FloatArray a)
+{
+    if(a.size() < 3)
+        AQSIS_THROW_XQERROR(XqParseError, EqE_BadToken,
+                            "color with fewer than three components");
+    return toFloatBasedType<RtConstColor>(a);
+}
+
 // Holder of RIB name for a light or object
 //
 // The RISpec says that lights are identified by a 'sequence number', but
@@ -544,7 +556,7 @@ getterStatements = {
     'RtStringArray': 'Ri::StringArray %s = m_lex->getStringArray();',
     'RtToken':       'const char* %s = m_lex->getString();',
     'RtTokenArray':  'Ri::StringArray %s = m_lex->getStringArray();',
-    'RtColor':       'RtConstColor& %s = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));',
+    'RtColor':       'RtConstColor& %s = toColor(m_lex->getFloatArray(m_numColorComps));',
     'RtPoint':       'RtConstPoint& %s = toFloatBasedType<RtConstPoint>(m_lex->getFloatArray(), "Point", 3);',
     'RtMatrix':      'RtConstMatrix& %s = toFloatBasedType<RtConstMatrix>(m_lex->getFloatArray(), "Matrix", 16);',
     'RtBound':       'RtConstBound& %s = toFloatBasedType<RtConstBound>(m_lex->getFloatArray(6));',
@@ -806,13 +818,13 @@ void RibParserImpl::handleAttributeEnd(Ri::Renderer& renderer)
 
 void RibParserImpl::handleColor(Ri::Renderer& renderer)
 {
-    RtConstColor& Cq = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));
+    RtConstColor& Cq = toColor(m_lex->getFloatArray(m_numColorComps));
     renderer.Color(Cq);
 }
 
 void RibParserImpl::handleOpacity(Ri::Renderer& renderer)
 {
-    RtConstColor& Os = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));
+    RtConstColor& Os = toColor(m_lex->getFloatArray(m_numColorComps));
     renderer.Opacity(Os);
 }
 
-- 
2.43.0


From 5b183d9b78ffd16aa262ad84056ec0b8fc3792b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:20 +0000
Subject: [PATCH 005/118] fix: stop decoding binary RIB strings and float
 arrays at end of input

A truncated (or damaged) length field made the tokenizer synthesise up to
2^32 bytes or floats past the end of the stream, exhausting memory.
---
 libs/riutil/ribinputbuffer.cpp |  4 +++-
 libs/riutil/ribinputbuffer.h   | 11 +++++++++++
 libs/riutil/ribtokenizer.cpp   | 12 ++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index b6e33dd..025964c 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -50,6 +50,7 @@ RibInputBuffer::RibInputBuffer(std::istream& inStream, const std::string& stream
 	m_gzipStream(),
 	m_bufPos(1),
 	m_bufEnd(2),
+	m_atEnd(false),
 	m_currPos(1,0),
 	m_prevPos(-1,-1)
 {
@@ -117,7 +118,8 @@ void RibInputBuffer::bufferNextChars()
 		// charater.  (Reading a single char may block, but that's acceptable.)
 		std::istream::int_type c = m_inStream->get();
 		// translate EOFs
-		m_buffer[m_bufPos] = (c == EOF) ? eof : c;
+		m_atEnd = (c == EOF);
+		m_buffer[m_bufPos] = m_atEnd ? eof : c;
 		m_bufEnd = m_bufPos + 1;
 	}
 }
diff --git a/libs/riutil/ribinputbuffer.h b/libs/riutil/ribinputbuffer.h
index 5f88ff5..4e0d3e6 100644
--- a/libs/riutil/ribinputbuffer.h
+++ b/libs/riutil/ribinputbuffer.h
@@ -91,6 +91,9 @@ class RibInputBuffer : boost::noncopyable
 		/// Put the last character back into the input stream
 		void unget();
 
+		/// Return true if the end of the underlying stream has been reached
+		bool atEnd() const;
+
 		/// Return the position of the previous character obtained with get()
 		SourcePos pos() const;
 		/// Return the name of the input stream
@@ -116,6 +119,9 @@ class RibInputBuffer : boost::noncopyable
 		/// Position of last valid character in input buffer.
 		int m_bufEnd;
 
+		/// True when the last character buffered stands in for the stream end.
+		bool m_atEnd;
+
 		/// Current source location
 		SourcePos m_currPos;
 		/// Previous source location
@@ -157,6 +163,11 @@ inline void RibInputBuffer::unget()
 	m_currPos = m_prevPos;
 }
 
+inline bool RibInputBuffer::atEnd() const
+{
+	return m_atEnd;
+}
+
 inline SourcePos RibInputBuffer::pos() const
 {
 	return m_currPos;
diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 77e0ca9..6140c96 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -164,6 +164,11 @@ void RibTokenizer::scanNext(RibToken& tok)
 		else
 		{
 			tok = decodeFloat32(*m_inBuf);
+			if(m_inBuf->atEnd())
+			{
+				m_arrayElementsRemaining = -1;
+				tok.error("end of file found in encoded float array");
+			}
 			return;
 		}
 	}
@@ -686,7 +691,14 @@ void RibTokenizer::decodeString(RibInputBuffer& inBuf, int numBytes,
 	std::string& str = tok.m_strVal;
 	str.clear();
 	for(int i = 0; i < numBytes; ++i)
+	{
 		str += static_cast<char>(inBuf.get());
+		if(inBuf.atEnd())
+		{
+			tok.error("end of file found in encoded string");
+			return;
+		}
+	}
 }
 
 /// Look up a previously defined encoded request.
-- 
2.43.0


From 61c4dfb26ee51ac1d225b1e1395987a5d507210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 006/118] fix: reject ArchiveEnd outside an inline archive

---
 libs/riutil/ri.xml             | 3 +++
 libs/riutil/ricxx_validate.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..619e8c7 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -3468,6 +3468,9 @@
 			<Name>ArchiveEnd</Name>
 			<ReturnType>RtVoid</ReturnType>
 			<Arguments/>
+			<ValidScope>
+				<Archive/>
+			</ValidScope>
 			<Rib/>
 		</Procedure>
 
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..845221b 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -2032,6 +2032,7 @@ RtVoid RiCxxValidate::ArchiveBegin(RtConstToken name, const ParamList& pList)
 
 RtVoid RiCxxValidate::ArchiveEnd()
 {
+    checkScope(ApiScope(Scope_Archive), "ArchiveEnd");
     popAttributes();
     nextFilter().ArchiveEnd();
     popScope(Scope_Archive);
-- 
2.43.0


From 277c37f19a856fdbf9bb7e6b53c21a6c089e4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:31 +0000
Subject: [PATCH 007/118] fix: keep the state of each enclosing conditional in
 the render util filter

---
 libs/riutil/renderutil_filter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..7dcd82b 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -61,6 +61,7 @@ class RenderUtilFilter : public Ri::Filter
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
         std::stack<bool> m_ifInactiveStack;
+        std::stack<bool> m_trueClauseFoundStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -108,6 +109,7 @@ class RenderUtilFilter : public Ri::Filter
             m_inObject(false),
             m_ifElseTest(conditionTest),
             m_ifInactiveStack(),
+            m_trueClauseFoundStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -245,6 +247,7 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 m_ifInactiveStack.push(m_ifInactive);
+                m_trueClauseFoundStack.push(m_trueClauseFound);
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -263,8 +266,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().ElseIf(condition);
                     return;
                 }
-                // If previous level conditional was inactive, just return.
-                if(m_ifInactiveStack.top())
+                // If previous level conditional was inactive, just return.  The
+                // test for empty() avoids a crash for invalid scoping.
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 if(m_trueClauseFound)
                 {
@@ -292,7 +296,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
-                if(m_ifInactiveStack.top())
+                if(m_ifInactiveStack.empty() || m_ifInactiveStack.top())
                     return;
                 // Else clause is activated when we haven't found a true
                 // If/ElseIf clause yet
@@ -316,6 +320,8 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 m_ifInactive = m_ifInactiveStack.top();
                 m_ifInactiveStack.pop();
+                m_trueClauseFound = m_trueClauseFoundStack.top();
+                m_trueClauseFoundStack.pop();
             }
         }
 
-- 
2.43.0


From 65350c200deb04c6aca1305940a083cf214dae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:14 +0000
Subject: [PATCH 008/118] fix: keep a cached archive or object alive while it
 is replayed

---
 libs/riutil/renderutil_filter.cpp | 42 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 7dcd82b..b6cee7e 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,9 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        typedef std::vector<boost::shared_ptr<CachedRiStream> > StreamVec;
+        StreamVec m_archives;
+        StreamVec m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -69,7 +72,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(StreamVec& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -81,7 +84,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(StreamVec& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -89,14 +92,14 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(boost::shared_ptr<CachedRiStream>(
+                                    new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -114,14 +117,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -160,7 +155,11 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                // Hold a reference, since the archive may redefine itself.
+                boost::shared_ptr<CachedRiStream> archive = m_archives[index];
+                archive->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -218,7 +217,12 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                // Hold a reference, since the object may be redefined by an
+                // archive which it reads.
+                boost::shared_ptr<CachedRiStream> object = m_objectInstances[index];
+                object->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From adaf2d18fa454443d65f9b107e44bc3692ee85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:01 +0000
Subject: [PATCH 009/118] fix: reject non-positive array sizes and stray
 brackets in parameter declarations

---
 libs/riutil/primvartoken.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/primvartoken.cpp b/libs/riutil/primvartoken.cpp
index ad6b7dc..b655c86 100644
--- a/libs/riutil/primvartoken.cpp
+++ b/libs/riutil/primvartoken.cpp
@@ -37,6 +37,8 @@
 
 #include <aqsis/riutil/primvartoken.h>
 
+#include <climits>
+#include <cstdlib>
 #include <cstring>
 
 #include <aqsis/util/exception.h>
@@ -187,17 +189,20 @@ Ri::TypeSpec parseDeclaration(const char* token, const char** nameStart,
 		if(!nextToken(begin, end))
 			RETURN_ERROR("expected array size after '['");
 		char* convEnd = 0;
-		spec.arraySize = std::strtol(begin, &convEnd, 10);
+		long arraySize = std::strtol(begin, &convEnd, 10);
 		if(convEnd != end)
 			RETURN_ERROR("array size must be an integer");
+		if(arraySize < 1 || arraySize > INT_MAX)
+			RETURN_ERROR("array size must be positive");
+		spec.arraySize = arraySize;
 		// Consume a "]" token
 		if(!nextToken(begin, end) || *begin != ']')
 			RETURN_ERROR("expected ']' after array size");
 		parsedArraylen = true;
 		NEXT_OR_END;
 	}
-	if(*begin == ']')
-		RETURN_ERROR("unexpected ]");
+	if(*begin == '[' || *begin == ']')
+		RETURN_ERROR("unexpected [ or ]");
 	// (4) anything remaining corresponds to the name.
 	if(nameStart)
 		*nameStart = begin;
-- 
2.43.0


From d9f1fc771b49b529f7a9457739b95c3964736b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:30 +0000
Subject: [PATCH 010/118] fix: keep parameter names valid while building a C
 API parameter list

---
 libs/riutil/ri2ricxx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..b3575a8 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -36,6 +36,7 @@
 
 #include <aqsis/riutil/ri2ricxx.h>
 
+#include <deque>
 #include <vector>
 #include <set>
 #include <stack>
@@ -200,7 +201,8 @@ void riToRiCxxEnd()
 namespace {
 
 std::vector<Ri::Param> g_pList;
-std::vector<std::string> g_nameStorage;
+// A deque, since the parameters hold pointers into the strings.
+std::deque<std::string> g_nameStorage;
 
 // Build a Ri::ParamList from the corresponding C API (count,tokens[],values[])
 //
@@ -213,6 +215,7 @@ Ri::ParamList buildParamList(RtInt count, RtToken tokens[], RtPointer values[],
     if(count == 0)
         return Ri::ParamList();
     g_pList.clear();
+    g_nameStorage.clear();
     for(int i = 0; i < count; ++i)
     {
         const char* nameBegin = 0;
-- 
2.43.0


From 893d480382dfb5ed6dad49e26e9291225323c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 011/118] fix: keep matrix identity flag and isClose tolerance
 honest

---
 include/aqsis/math/matrix.h | 1 +
 libs/math/matrix.cpp        | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/matrix.h b/include/aqsis/math/matrix.h
index 609648e..b91d396 100644
--- a/include/aqsis/math/matrix.h
+++ b/include/aqsis/math/matrix.h
@@ -919,6 +919,7 @@ inline CqMatrix CqMatrix::Transpose() const
 inline CqMatrix operator*( TqFloat S, const CqMatrix& a )
 {
 	CqMatrix temp( a );
+	temp.m_fIdentity = false;
 	temp.m_elements[ 0 ][ 0 ] *= S;
 	temp.m_elements[ 1 ][ 0 ] *= S;
 	temp.m_elements[ 2 ][ 0 ] *= S;
diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index ca48fef..0cabdab 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -513,13 +513,13 @@ bool isClose(const CqMatrix& m1, const CqMatrix& m2, TqFloat tol)
 	{
 		CqMatrix ident;
 		ident.SetfIdentity(false);
-		return isClose(m2, ident);
+		return isClose(m2, ident, tol);
 	}
 	else if(m2.fIdentity())
 	{
 		CqMatrix ident;
 		ident.SetfIdentity(false);
-		return isClose(m1, ident);
+		return isClose(m1, ident, tol);
 	}
 	TqFloat norm1 = 0;
 	TqFloat norm2 = 0;
-- 
2.43.0


From 9730d9ffc5124d41cdfa05a82c78d9b710a5de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:47 +0000
Subject: [PATCH 012/118] fix: multiply a matrix by itself correctly

---
 libs/math/matrix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index 0cabdab..ade5da3 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -154,6 +154,10 @@ CqMatrix &CqMatrix::operator*=( const CqMatrix &from )
 	else if ( from.m_fIdentity )
 		return ( *this );
 
+	// The elements of "from" change below if it is this matrix.
+	if ( &from == this )
+		return ( *this *= CqMatrix( from ) );
+
 	CqMatrix A( *this );
 
 	m_elements[ 0 ][ 0 ] = from.m_elements[ 0 ][ 0 ] * A.m_elements[ 0 ][ 0 ]
@@ -236,6 +240,10 @@ CqMatrix& CqMatrix::PreMultiply( const CqMatrix &from )
 	else if ( from.m_fIdentity )
 		return ( *this );
 
+	// The elements of "from" change below if it is this matrix.
+	if ( &from == this )
+		return ( PreMultiply( CqMatrix( from ) ) );
+
 	CqMatrix A( *this );
 
 	m_elements[ 0 ][ 0 ] = A.m_elements[ 0 ][ 0 ] * from.m_elements[ 0 ][ 0 ]
-- 
2.43.0


From e94a455b665acdc76501f554ddf8ef2d0e98938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:14 +0000
Subject: [PATCH 013/118] fix: cross product of a vector with itself or of
 homogeneous vectors

---
 include/aqsis/math/vector3d.h | 7 ++++---
 include/aqsis/math/vector4d.h | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/math/vector3d.h b/include/aqsis/math/vector3d.h
index 5485a1f..f17bb55 100644
--- a/include/aqsis/math/vector3d.h
+++ b/include/aqsis/math/vector3d.h
@@ -411,9 +411,10 @@ template<typename T>
 inline CqBasicVec3<StoreT>& CqBasicVec3<StoreT>::operator%=(const CqBasicVec3<T> &vec)
 {
 	const CqVec3 tmp(*this);
-	x() = tmp.y()*vec.z() - tmp.z()*vec.y();
-	y() = tmp.z()*vec.x() - tmp.x()*vec.z();
-	z() = tmp.x()*vec.y() - tmp.y()*vec.x();
+	const CqVec3 rhs(vec);
+	x() = tmp.y()*rhs.z() - tmp.z()*rhs.y();
+	y() = tmp.z()*rhs.x() - tmp.x()*rhs.z();
+	z() = tmp.x()*rhs.y() - tmp.y()*rhs.x();
 	return ( *this );
 }
 
diff --git a/include/aqsis/math/vector4d.h b/include/aqsis/math/vector4d.h
index 0e3d0e4..a91f98a 100644
--- a/include/aqsis/math/vector4d.h
+++ b/include/aqsis/math/vector4d.h
@@ -407,6 +407,7 @@ inline CqVector4D &CqVector4D::operator%=( const CqVector4D &From )
 	m_x = ( A.m_y * B.m_z ) - ( A.m_z * B.m_y );
 	m_y = ( A.m_z * B.m_x ) - ( A.m_x * B.m_z );
 	m_z = ( A.m_x * B.m_y ) - ( A.m_y * B.m_x );
+	m_h = 1.0f;
 
 	return ( *this );
 }
-- 
2.43.0


From 93b92c0a1a5d8a5f02feba15ab26af093e008d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:31 +0000
Subject: [PATCH 014/118] fix: hsl, hsv and YIQ conversions of greys and of
 general colours

---
 libs/math/color.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libs/math/color.cpp b/libs/math/color.cpp
index 9e418ea..6e5b807 100644
--- a/libs/math/color.cpp
+++ b/libs/math/color.cpp
@@ -97,7 +97,7 @@ CqColor rgbtohsl(const CqColor& col)
 	// Next Saturation
 	if ( fabs( diff ) <= Small_Value )
 	{
-		L = 0.0;
+		S = 0.0;
 		H = UNDEFINED;
 	}
 	else
@@ -140,9 +140,10 @@ CqColor rgbtoxyY(const CqColor& col)
 
 CqColor rgbtoYIQ(const CqColor& col)
 {
-	const CqMatrix matRGBtoYIQ( 0.299, 0.587, 0.114, 0,
-	                             0.596, -0.274, -0.322, 0,
-	                             0.212, -0.523, 0.311, 0,
+	// Note that CqMatrix transforms row vectors.
+	const CqMatrix matRGBtoYIQ( 0.299, 0.596, 0.212, 0,
+	                             0.587, -0.274, -0.523, 0,
+	                             0.114, -0.322, 0.311, 0,
 	                             0, 0, 0, 1 );
 
 	return vectorCast<CqColor>(matRGBtoYIQ * vectorCast<CqVector3D>(col));
@@ -155,7 +156,7 @@ CqColor hsvtorgb(const CqColor& col)
 	// HSV_TO_RGB from Foley, van Dam, Feiner, Hughes 2nd Ed. Pg 593
 	if ( S == 0.0 )
 	{
-		assert( H < 0 );	// If s==0 then h MUST be undefined.
+		// The hue has no effect on a grey.
 		R = G = B = V;
 	}
 	else
@@ -242,7 +243,7 @@ CqColor hsltorgb(const CqColor& col)
 
 	if ( S == 0 )
 	{
-		assert( col.r() < 0 );
+		// The hue has no effect on a grey.
 		R = G = B = L;
 	}
 	else
@@ -269,9 +270,10 @@ CqColor xyYtorgb(const CqColor& col)
 
 CqColor YIQtorgb(const CqColor& col)
 {
-	const CqMatrix matYIQtoRGB( 1, 0.956, 0.621, 0,
-	                             1, -0.272, -0.647, 0,
-	                             1, -1.105, 1.702, 0,
+	// Note that CqMatrix transforms row vectors.
+	const CqMatrix matYIQtoRGB( 1, 1, 1, 0,
+	                             0.956, -0.272, -1.105, 0,
+	                             0.621, -0.647, 1.702, 0,
 	                             0, 0, 0, 1 );
 
 	return vectorCast<CqColor>(matYIQtoRGB * vectorCast<CqVector3D>(col));
-- 
2.43.0


From cd07226c2cafcd58093ed7f17468c0556ffd5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:45 +0000
Subject: [PATCH 015/118] fix: make cell noise constant over cells at negative
 coordinates and use every axis

---
 libs/math/cellnoise.cpp | 53 ++++-------------------------------------
 1 file changed, 4 insertions(+), 49 deletions(-)

diff --git a/libs/math/cellnoise.cpp b/libs/math/cellnoise.cpp
index 24d8a9a..076c1f0 100644
--- a/libs/math/cellnoise.cpp
+++ b/libs/math/cellnoise.cpp
@@ -34,6 +34,8 @@
 
 #include	<aqsis/aqsis.h>
 
+#include <cmath>
+
 #include <aqsis/math/cellnoise.h>
 
 namespace Aqsis {
@@ -46,7 +48,7 @@ namespace {
 // Given a float, return an index into the permutation table
 inline TqUint permTableIndex(TqFloat x)
 {
-	return static_cast<TqUint>(static_cast<TqInt>(x)) & 0x7ff;
+	return static_cast<TqUint>(static_cast<TqInt>(std::floor(x))) & 0x7ff;
 }
 
 } // unnamed namespace
@@ -57,8 +59,6 @@ inline TqUint permTableIndex(TqFloat x)
 
 TqFloat CqCellNoise::FCellNoise1( TqFloat u )
 {
-	if ( u < 0.0 )
-		u -= 1;
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 
 	return ( m_RandomTable[ i ] );
@@ -71,11 +71,6 @@ TqFloat CqCellNoise::FCellNoise1( TqFloat u )
 
 TqFloat CqCellNoise::FCellNoise2( TqFloat u, TqFloat v )
 {
-	if ( u < 0.0 )
-		u -= 1;
-	if ( v < 0.0 )
-		v -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 	i = m_PermuteTable[i + permTableIndex(v)];
 
@@ -90,16 +85,9 @@ TqFloat CqCellNoise::FCellNoise2( TqFloat u, TqFloat v )
 TqFloat CqCellNoise::FCellNoise3( const CqVector3D& P )
 {
 	TqFloat x = P.x();
-	TqFloat y = P.x();
+	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
 	i = m_PermuteTable[i + permTableIndex(z)];
@@ -118,15 +106,6 @@ TqFloat CqCellNoise::FCellNoise4( const CqVector3D& P, TqFloat v )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-	if ( v < 0.0 )
-		v -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
 	i = m_PermuteTable[i + permTableIndex(z)];
@@ -144,9 +123,6 @@ CqVector3D CqCellNoise::PCellNoise1( TqFloat u )
 {
 	CqVector3D result;
 
-	if ( u < 0.0 )
-		u -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 
 	result.x( m_RandomTable[ i ] );
@@ -167,11 +143,6 @@ CqVector3D CqCellNoise::PCellNoise2( TqFloat u, TqFloat v )
 {
 	CqVector3D result;
 
-	if ( u < 0.0 )
-		u -= 1;
-	if ( v < 0.0 )
-		v -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 	i = m_PermuteTable[i + permTableIndex(v)];
 
@@ -197,13 +168,6 @@ CqVector3D CqCellNoise::PCellNoise3( const CqVector3D& P )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
 	i = m_PermuteTable[i + permTableIndex(z)];
@@ -230,15 +194,6 @@ CqVector3D CqCellNoise::PCellNoise4( const CqVector3D& P, TqFloat v )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-	if ( v < 0.0 )
-		v -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
 	i = m_PermuteTable[i + permTableIndex(z)];
-- 
2.43.0


From be744708767322f1b3de611c5d5d1525b0b084d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 016/118] fix: keep the argument after a full counted option
 list as a leftover

---
 libs/util/argparse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/util/argparse.cpp b/libs/util/argparse.cpp
index f428d21..3830942 100644
--- a/libs/util/argparse.cpp
+++ b/libs/util/argparse.cpp
@@ -252,12 +252,14 @@ bool ArgParse::parse(int argc, const char** argv)
 			oneshotargeater = NULL;
 			continue;
 		}
+		// An option which has collected all of its arguments takes no more.
+		if (argeater != NULL && argeater->count == 0)
+			argeater = NULL;
 		// The argv[i][1] == '\0' part below is so we treat "-"
 		// by itself as a regular argument, not as an option,
 		// since it's a common abbreviation for stdin, and isn't
 		// really meaningful as an option.
-		if (( argv[i][0] != '-' || argv[i][1] == '\0' ) &&
-		        ( !argeater || ( argeater->count > 0 || argeater->count == -1 ) ) )
+		if (argv[i][0] != '-' || argv[i][1] == '\0')
 		{
 			if (argeater == NULL)
 				d->leftovers.push_back(argv[i]);
-- 
2.43.0


From 1ed1cb7d263f2f969ab425d44346ac5d176538d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 017/118] fix: an unmatched % in a search path no longer loops
 forever

---
 libs/util/file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/util/file.cpp b/libs/util/file.cpp
index d5c3c03..fffd906 100644
--- a/libs/util/file.cpp
+++ b/libs/util/file.cpp
@@ -186,6 +186,12 @@ std::string expandSearchPath(const std::string& newPath,
 						expandedPath += strVal;
 					strt = envvarend + 1;
 				}
+				else
+				{
+					// No closing %; keep it literally.
+					expandedPath += '%';
+					strt = match + 1;
+				}
 			}
 		}
 		else
-- 
2.43.0


From c41727c0c81742a5f79c53b3dc90b1de26f35ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 018/118] fix: catch the boost filesystem errors which the file
 lookup raises

---
 libs/util/file.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/util/file.cpp b/libs/util/file.cpp
index fffd906..fad6f87 100644
--- a/libs/util/file.cpp
+++ b/libs/util/file.cpp
@@ -30,7 +30,6 @@
 #include <cctype>
 #include <cstring>
 #include <fstream>
-#include <filesystem>
 
 #ifdef AQSIS_SYSTEM_WIN32
 #	include <direct.h>
@@ -75,7 +74,7 @@ namespace {
 		{
 			return is_regular_file(filePath);
 		}
-		catch(std::filesystem::filesystem_error& e)
+		catch(boostfs::filesystem_error& e)
 		{ }
 		return false;
 	}
-- 
2.43.0


From 69ad292f1d4ee4132823b04f0085c85570d645da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 019/118] fix: read scanlines from the middle of a compressed
 TIFF strip

---
 libs/tex/io/tiffinputfile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libs/tex/io/tiffinputfile.cpp b/libs/tex/io/tiffinputfile.cpp
index feb49b0..3d2e55e 100644
--- a/libs/tex/io/tiffinputfile.cpp
+++ b/libs/tex/io/tiffinputfile.cpp
@@ -38,6 +38,8 @@
 
 #include "tiffinputfile.h"
 
+#include <vector>
+
 #include "boost/scoped_array.hpp"
 
 #include "tiffdirhandle.h"
@@ -111,6 +113,18 @@ void CqTiffInputFile::readPixelsStripped(TqUint8* buffer, TqInt startLine,
 	//
 	// In the unlikely event that it turns out to be a problem, we should look
 	// at using the strip-based interface via TIFFReadEncodedStrip & friends.
+	//
+	// Compressed strips don't support random access: the scanlines of the
+	// first strip which precede startLine have to be read (and discarded).
+	uint32_t rowsPerStrip = 0;
+	TIFFGetFieldDefaulted(dirHandle.tiffPtr(), TIFFTAG_ROWSPERSTRIP, &rowsPerStrip);
+	if(rowsPerStrip > 0 && startLine % rowsPerStrip != 0)
+	{
+		std::vector<TqUint8> skipped(bytesPerRow);
+		for(uint32_t line = startLine - startLine % rowsPerStrip;
+				line < static_cast<uint32_t>(startLine); ++line)
+			TIFFReadScanline(dirHandle.tiffPtr(), &skipped[0], line);
+	}
 	for(TqInt line = startLine; line < startLine + numScanlines; ++line)
 	{
 		TIFFReadScanline(dirHandle.tiffPtr(), reinterpret_cast<tdata_t>(buffer),
-- 
2.43.0


From 6dd9bded21a20d22be7cee0bdbd251b5713462ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 020/118] fix: write the tiles of the second and later pixel
 buffers of a tiled TIFF

---
 libs/tex/io/tiffoutputfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/tex/io/tiffoutputfile.cpp b/libs/tex/io/tiffoutputfile.cpp
index bc92158..a6b6d8b 100644
--- a/libs/tex/io/tiffoutputfile.cpp
+++ b/libs/tex/io/tiffoutputfile.cpp
@@ -186,7 +186,7 @@ void CqTiffOutputFile::writeTiledPixels(const CqMixedImageBuffer& buffer)
 		{
 			const TqInt tileDataLen = min(tileRowStride,
 					rowStride - tileCol*tileRowStride);
-			const TqInt tileDataHeight = min(tileInfo.height, buffer.height() - line);
+			const TqInt tileDataHeight = min(tileInfo.height, endLine - line);
 			// Copy parts of the scanlines into the tile buffer.
 			stridedCopy(tileBuf.get(), tileRowStride, srcBuf, rowStride,
 					tileDataHeight, tileDataLen);
-- 
2.43.0


From a0a4a86daeb759c4564329da40f39da6ba86f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 021/118] fix: size of the OpenEXR display window

---
 libs/tex/io/exrinputfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/tex/io/exrinputfile.cpp b/libs/tex/io/exrinputfile.cpp
index e0d79ef..e2d4ff9 100644
--- a/libs/tex/io/exrinputfile.cpp
+++ b/libs/tex/io/exrinputfile.cpp
@@ -134,8 +134,8 @@ void convertHeader(const Imf::Header& exrHeader, CqTexFileHeader& header)
 	// display window
 	const Imath::Box2i& displayBox = exrHeader.displayWindow();
 	header.set<Attr::DisplayWindow>( SqImageRegion(
-				displayBox.max.x - displayBox.min.x,
-				displayBox.max.y - displayBox.min.y,
+				displayBox.max.x - displayBox.min.x+1,
+				displayBox.max.y - displayBox.min.y+1,
 				displayBox.min.x - dataBox.min.x,
 				displayBox.min.y - dataBox.min.y) );
 
-- 
2.43.0


From b2a79787eb757278204aec43c1a063efab432d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 022/118] fix: reject tiled TIFFs whose sub-images have
 different channels

---
 libs/tex/io/tiledtiffinputfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/tex/io/tiledtiffinputfile.cpp b/libs/tex/io/tiledtiffinputfile.cpp
index ffb91ec..014eedb 100644
--- a/libs/tex/io/tiledtiffinputfile.cpp
+++ b/libs/tex/io/tiledtiffinputfile.cpp
@@ -89,6 +89,13 @@ CqTiledTiffInputFile::CqTiledTiffInputFile(const boostfs::path& fileName)
 				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "TIFF file \""
 						<< fileName << "\" has unequal tile sizes for sub-images");
 			}
+			// Check that the channels are the same as in the first image.
+			if(!tmpHeader->channelList().channelTypesMatch(
+						m_headers[0]->channelList()))
+			{
+				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "TIFF file \""
+						<< fileName << "\" has unequal channels for sub-images");
+			}
 		}
 		// Grab store the width and height of the current subimage.
 		m_widths.push_back(tmpHeader->width());
-- 
2.43.0


From b72f5002b164b0c8f41baabf869daa02f7e84a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 023/118] fix: honour the start line when reading PNG files

---
 libs/tex/io/pnginputfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/tex/io/pnginputfile.cpp b/libs/tex/io/pnginputfile.cpp
index e8c4231..84cc2f3 100644
--- a/libs/tex/io/pnginputfile.cpp
+++ b/libs/tex/io/pnginputfile.cpp
@@ -288,7 +288,7 @@ void CqPngInputFile::readPixelsImpl(TqUint8* buffer, TqInt startLine,
 
     for (int lineIdx = 0; lineIdx != numScanlines; ++lineIdx, destBuff += destBytesPerLine)
     {
-        const TqUint8* srcBuff(getRowPtr(lineIdx));
+        const TqUint8* srcBuff(getRowPtr(startLine + lineIdx));
         assert(srcBuff);
         if ( NULL != srcBuff )
         {
-- 
2.43.0


From c843d342428eb65c82b9b51bca1d8e17e6ae592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 024/118] fix: report unreadable PNG files instead of aborting

---
 libs/tex/io/pnginputfile.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/libs/tex/io/pnginputfile.cpp b/libs/tex/io/pnginputfile.cpp
index 84cc2f3..d001cc4 100644
--- a/libs/tex/io/pnginputfile.cpp
+++ b/libs/tex/io/pnginputfile.cpp
@@ -39,6 +39,7 @@
 #include "pnginputfile.h"
 #include "boost/scoped_array.hpp"
 #include <stdlib.h>
+#include <aqsis/tex/texexception.h>
 
 namespace Aqsis {
 
@@ -108,19 +109,21 @@ private:
             if (success)
             {
                 ::png_init_io(m_PNGHandle, m_fileHandle);
-                ::png_read_info(m_PNGHandle, m_infoPtr);
-
-                success = initImageBuffer();
-                if (success)
+                // libpng reports errors in the file by jumping back to here.
+                if (setjmp(png_jmpbuf(m_PNGHandle)) == 0)
                 {
-                    return true; // success
+                    ::png_read_info(m_PNGHandle, m_infoPtr);
+
+                    if (initImageBuffer())
+                    {
+                        return true; // success
+                    }
                 }
             }
 
+            ::fclose(m_fileHandle);
+            m_fileHandle = NULL;
         }
-
-        ::fclose(m_fileHandle);
-        m_fileHandle = NULL;
         return false; // failure
     }
 
@@ -207,7 +210,13 @@ CqPngInputFile::CqPngInputFile(const boostfs::path& fileName)
 , m_fileName(fileName)
 , m_header()
 {
-    if (m_PNGReader->isValid())
+    if (!m_PNGReader->isValid())
+    {
+        delete m_PNGReader;
+        AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
+            "Could not read PNG file \"" << fileName << "\"");
+    }
+    else
     {
         m_header.setWidth(m_PNGReader->getWidth());
         m_header.setHeight(m_PNGReader->getHeight());
-- 
2.43.0


From 758deff6debb59d471e1ee3f49d1a792f0452ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 025/118] fix: read greyscale, palette, 16-bit and low bit
 depth PNG images

---
 libs/tex/io/pnginputfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/tex/io/pnginputfile.cpp b/libs/tex/io/pnginputfile.cpp
index d001cc4..b43e824 100644
--- a/libs/tex/io/pnginputfile.cpp
+++ b/libs/tex/io/pnginputfile.cpp
@@ -114,6 +114,13 @@ private:
                 {
                     ::png_read_info(m_PNGHandle, m_infoPtr);
 
+                    // Convert every kind of PNG image to 8-bit RGB or RGBA.
+                    ::png_set_expand(m_PNGHandle);
+                    ::png_set_strip_16(m_PNGHandle);
+                    ::png_set_gray_to_rgb(m_PNGHandle);
+                    ::png_set_interlace_handling(m_PNGHandle);
+                    ::png_read_update_info(m_PNGHandle, m_infoPtr);
+
                     if (initImageBuffer())
                     {
                         return true; // success
-- 
2.43.0


From a00996d7f3c27f168471218bd64fc760e5b0129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 026/118] fix: round integer texture pixels to the nearest
 value

---
 include/aqsis/tex/buffers/texturebuffer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/buffers/texturebuffer.h b/include/aqsis/tex/buffers/texturebuffer.h
index cb4462e..94c122a 100644
--- a/include/aqsis/tex/buffers/texturebuffer.h
+++ b/include/aqsis/tex/buffers/texturebuffer.h
@@ -399,8 +399,11 @@ inline void CqTextureBuffer<T>::setPixel(const TqInt x, const TqInt y,
 		/// \todo Need to think about how this should work for signed integer channels.
 		for(TqInt chan = 0; chan < m_numChannels; ++chan)
 		{
-			pixel[chan] = static_cast<T>(std::numeric_limits<T>::max()
-					* clamp(pixelValue[chan], 0.0f, 1.0f));
+			// ... rounding to the nearest representable value.  (The double
+			// is necessary to avoid overflow for 32-bit channels.)
+			pixel[chan] = static_cast<T>(
+					static_cast<double>(std::numeric_limits<T>::max())
+					* clamp<TqFloat>(pixelValue[chan], 0.0f, 1.0f) + 0.5);
 		}
 	}
 	else
-- 
2.43.0


From abb6864f84f12c898ec687a3ac3a9bbcf79cfdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:04 +0000
Subject: [PATCH 027/118] fix: require the world->screen matrix when making
 shadow and occlusion maps

---
 libs/tex/maketexture/maketexture.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/tex/maketexture/maketexture.cpp b/libs/tex/maketexture/maketexture.cpp
index 4c2123c..2264518 100644
--- a/libs/tex/maketexture/maketexture.cpp
+++ b/libs/tex/maketexture/maketexture.cpp
@@ -453,7 +453,7 @@ void makeShadow(const boostfs::path& inFileName, const boostfs::path& outFileNam
 	// Ensure that the screen and camera transformation matrices are present.
 	// If not, the texture will be useless for shadow mapping.
 	if( header.findPtr<Attr::WorldToCameraMatrix>() == 0
-			|| header.findPtr<Attr::WorldToCameraMatrix>() == 0 )
+			|| header.findPtr<Attr::WorldToScreenMatrix>() == 0 )
 	{
 		AQSIS_THROW_XQERROR(XqBadTexture,EqE_BadFile,
 				"world->camera and world->screen matrices not specified in input file");
@@ -497,7 +497,7 @@ void makeOcclusion(const std::vector<boostfs::path>& inFiles,
 		// Ensure that the screen and camera transformation matrices are
 		// present.
 		if( header.findPtr<Attr::WorldToCameraMatrix>() == 0
-				|| header.findPtr<Attr::WorldToCameraMatrix>() == 0 )
+				|| header.findPtr<Attr::WorldToScreenMatrix>() == 0 )
 		{
 			AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
 				"world->camera and world->screen matrices not specified in input file"
-- 
2.43.0


From 32b2c5dda9bf1d24c9eb147ee77a71c5c45322a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 028/118] fix: corners of textures which are clamped in one
 direction and periodic in the other

---
 include/aqsis/tex/filtering/filtertexture.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/tex/filtering/filtertexture.h b/include/aqsis/tex/filtering/filtertexture.h
index c2fbfd1..5fce1bb 100644
--- a/include/aqsis/tex/filtering/filtertexture.h
+++ b/include/aqsis/tex/filtering/filtertexture.h
@@ -180,12 +180,13 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 			// clamped in x direction, but not in y direction.
 			// Here we perform a normal iteration over y, but leave 
 			TqInt xClamp = clamp(tlX, 0, buffer.width()-1);
-			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1), tileSupport.sy);
+			SqFilterSupport clampedSupport(xClamp, xClamp+1,
+					tileSupport.sy.start - tlY, tileSupport.sy.end - tlY);
 			for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 					i.inSupport(); ++i)
 			{
 				for(TqInt ix = tileSupport.sx.start; ix < tileSupport.sx.end; ++ix)
-					sampleAccum.accumulate(ix, i.y(), *i);
+					sampleAccum.accumulate(ix, i.y() + tlY, *i);
 			}
 		}
 	}
@@ -194,12 +195,13 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		// clamped in y direction, but not in x direction.  This is just an
 		// inverted (and slightly duplicated :-/ ) version of the code above
 		TqInt yClamp = clamp(tlY, 0, buffer.height()-1);
-		SqFilterSupport clampedSupport(tileSupport.sx, SqFilterSupport1D(yClamp, yClamp+1));
+		SqFilterSupport clampedSupport(tileSupport.sx.start - tlX,
+				tileSupport.sx.end - tlX, yClamp, yClamp+1);
 		for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 				i.inSupport(); ++i)
 		{
 			for(TqInt iy = tileSupport.sy.start; iy < tileSupport.sy.end; ++iy)
-				sampleAccum.accumulate(i.x(), iy, *i);
+				sampleAccum.accumulate(i.x() + tlX, iy, *i);
 		}
 	}
 	else
-- 
2.43.0


From 76cefb8c03203490556ff0fb263cd72f2cc6a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 029/118] fix: initialise the default fill value of texture
 lookups

---
 include/aqsis/tex/filtering/texturesampleoptions.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aqsis/tex/filtering/texturesampleoptions.h b/include/aqsis/tex/filtering/texturesampleoptions.h
index b73745f..b1c6fa9 100644
--- a/include/aqsis/tex/filtering/texturesampleoptions.h
+++ b/include/aqsis/tex/filtering/texturesampleoptions.h
@@ -554,6 +554,7 @@ inline void CqTextureSampleOptionsBase::fillFromFileHeader(
 
 inline CqTextureSampleOptions::CqTextureSampleOptions()
 	: CqTextureSampleOptionsBase(),
+	m_fill(0),
 	m_lerp(Lerp_Auto)
 { }
 
-- 
2.43.0


From ec8a24a591853c6d560dfd7c303268f47ef26413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 030/118] fix: scale both sides of a texture filter footprint
 by the filter widths

---
 include/aqsis/tex/filtering/samplequad.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index cd822ec..65775c2 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -371,8 +371,8 @@ inline void SqSamplePllgram::scaleWidth(TqFloat xWidth, TqFloat yWidth)
 	{
 		s1.x(s1.x()*xWidth);
 		s1.y(s1.y()*yWidth);
-		s2.x(s1.x()*xWidth);
-		s2.y(s1.y()*yWidth);
+		s2.x(s2.x()*xWidth);
+		s2.y(s2.y()*yWidth);
 	}
 }
 
-- 
2.43.0


From 99a8239db4a05fab7f2553dd14c2954f71f84d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:40 +0000
Subject: [PATCH 031/118] fix: remap only the periodic coordinates of a texture
 lookup

---
 include/aqsis/tex/filtering/samplequad.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index 65775c2..1673da8 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -359,7 +359,8 @@ inline void SqSamplePllgram::remapPeriodic(bool xPeriodic, bool yPeriodic)
 	{
 		if(c.x() < 0 || c.y() < 0 || c.x() >= 1 || c.y() >= 1)
 		{
-			CqVector2D v(std::floor(c.x()),std::floor(c.y()));
+			CqVector2D v(xPeriodic ? std::floor(c.x()) : 0,
+					yPeriodic ? std::floor(c.y()) : 0);
 			c -= v;
 		}
 	}
-- 
2.43.0


From 8abe4f5dd563d4401afc906adabcabd0b5fa8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:36 +0000
Subject: [PATCH 032/118] fix: read OpenEXR scanlines after the first into the
 start of the buffer

---
 libs/tex/io/exrinputfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/tex/io/exrinputfile.cpp b/libs/tex/io/exrinputfile.cpp
index e2d4ff9..0a880d3 100644
--- a/libs/tex/io/exrinputfile.cpp
+++ b/libs/tex/io/exrinputfile.cpp
@@ -214,7 +214,7 @@ void CqExrInputFile::readPixelsImpl(TqUint8* buffer,
 	// In OpenEXR, the buffer base pointer is assumed to point at the
 	// coordinates of the (0,0) pixel.  We need to correct our buffer pointer
 	// by subtracting the offset to (0,0) from the start of the data.
-	buffer -= dataWindow.min.x*xStride + dataWindow.min.y*yStride;
+	buffer -= dataWindow.min.x*xStride + startLine*yStride;
 	for(TqInt i = 0; i < channels.numChannels(); ++i)
 	{
 		frameBuffer.insert(nameMap.find(channels[i].name)->second.c_str(),
-- 
2.43.0


From 28080e51834959096e4d566ace39fe2626d0ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:53 +0000
Subject: [PATCH 033/118] fix: don't mix an empty coarser mipmap level into
 texture lookups

---
 include/aqsis/tex/filtering/sampleaccum.h |  8 ++++++++
 libs/tex/filtering/mipmap.h               | 14 +++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/tex/filtering/sampleaccum.h b/include/aqsis/tex/filtering/sampleaccum.h
index 357d7ab..d21938a 100644
--- a/include/aqsis/tex/filtering/sampleaccum.h
+++ b/include/aqsis/tex/filtering/sampleaccum.h
@@ -152,6 +152,8 @@ class CqSampleAccum
 		 */
 		template<typename SampleVectorT>
 		inline void accumulate(TqInt x, TqInt y, const SampleVectorT& inSamples);
+		/// Get the sum of the (unnormalized) filter weights accumulated so far.
+		inline TqFloat totalWeight() const;
 
 		/// Cleanup; renormalize the accumulated data if necessary.
 		inline ~CqSampleAccum();
@@ -320,6 +322,12 @@ inline void CqSampleAccum<FilterWeightT>::accumulate(TqInt x, TqInt y,
 	}
 }
 
+template<typename FilterWeightT>
+inline TqFloat CqSampleAccum<FilterWeightT>::totalWeight() const
+{
+	return m_totWeight;
+}
+
 template<typename FilterWeightT>
 inline CqSampleAccum<FilterWeightT>::~CqSampleAccum()
 {
diff --git a/libs/tex/filtering/mipmap.h b/libs/tex/filtering/mipmap.h
index 87abd51..96724de 100644
--- a/libs/tex/filtering/mipmap.h
+++ b/libs/tex/filtering/mipmap.h
@@ -130,9 +130,11 @@ class CqMipmap
 		 *            filter weights.
 		 * \param sampleOpts - sample options structure
 		 * \param outSamps - destination array for filtered samples.
+		 *
+		 * \return false if the filter support didn't contain any texels.
 		 */
 		template<typename FilterFactoryT>
-		void filterLevel(TqInt level, const FilterFactoryT& filterFactory,
+		bool filterLevel(TqInt level, const FilterFactoryT& filterFactory,
 				const CqTextureSampleOptions& sampleOpts, TqFloat* outSamps) const;
 
 		/** \brief Get the buffer for a given level.
@@ -313,7 +315,12 @@ void CqMipmap<TextureBufferT>::applyFilter(const FilterFactoryT& filterFactory,
 
 		// Filter second level into tmpSamps.
 		CqAutoBuffer<TqFloat, 16> tmpSamps(sampleOpts.numChannels());
-		filterLevel(level+1, filterFactory, sampleOpts, tmpSamps.get());
+		if(!filterLevel(level+1, filterFactory, sampleOpts, tmpSamps.get()))
+		{
+			// The filter may be too narrow to catch any texels on the coarser
+			// level, in which case there's nothing to interpolate with.
+			return;
+		}
 
 		// Mix outSamps and tmpSamps.
 		TqFloat levelInterp = levelCts - level;
@@ -419,7 +426,7 @@ void CqMipmap<TextureBufferT>::initLevels()
 
 template<typename TextureBufferT>
 template<typename FilterFactoryT>
-void CqMipmap<TextureBufferT>::filterLevel(
+bool CqMipmap<TextureBufferT>::filterLevel(
 		TqInt level, const FilterFactoryT& filterFactory,
 		const CqTextureSampleOptions& sampleOpts, TqFloat* outSamps) const
 {
@@ -454,6 +461,7 @@ void CqMipmap<TextureBufferT>::filterLevel(
 		support,
 		SqWrapModes(sampleOpts.sWrapMode(), sampleOpts.tWrapMode())
 	);
+	return accumulator.totalWeight() != 0;
 }
 
 } // namespace Aqsis
-- 
2.43.0


From 1f6396e0cb2bcfea6111ff038fa1d41847b20a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 034/118] fix: report unreadable TIFF directories as bad
 textures

---
 libs/tex/io/tiffdirhandle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/tex/io/tiffdirhandle.cpp b/libs/tex/io/tiffdirhandle.cpp
index 953da8e..2aa407f 100644
--- a/libs/tex/io/tiffdirhandle.cpp
+++ b/libs/tex/io/tiffdirhandle.cpp
@@ -794,6 +794,11 @@ void CqTiffFileHandle::setDirectory(tdir_t dirIdx)
 	{
 		if(!TIFFSetDirectory(m_tiffPtr.get(), dirIdx))
 		{
+			// If the directory exists but can't be read the file is damaged.
+			if(dirIdx < numDirectories())
+				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
+						"Could not read tiff directory " << dirIdx << " in file \""
+						<< m_fileName << "\"");
 			AQSIS_THROW_XQERROR(XqInternal, EqE_Bug,
 					"Requested tiff directory " << dirIdx << " out of range for file \""
 					<< m_fileName << "\"");
-- 
2.43.0


From 9cb7633985e4ef190188177be4b52a98831147cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:48 +0000
Subject: [PATCH 035/118] fix: rounding no longer trips the symmetry assertion
 of the texture filter

---
 libs/tex/filtering/ewafilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/tex/filtering/ewafilter.cpp b/libs/tex/filtering/ewafilter.cpp
index a8204b2..1b5cc51 100644
--- a/libs/tex/filtering/ewafilter.cpp
+++ b/libs/tex/filtering/ewafilter.cpp
@@ -130,7 +130,8 @@ void CqEwaFilterFactory::computeFilter(const SqSamplePllgram& samplePllgram,
 	// coVar = S*coVar*S;
 	coVar.a *= baseResS*baseResS;
 	coVar.b *= baseResS*baseResT;
-	coVar.c *= baseResS*baseResT;
+	// The covariance is symmetric; make that hold in spite of rounding errors.
+	coVar.c = coVar.b;
 	coVar.d *= baseResT*baseResT;
 	// Finally, add in the reconstruction variance.
 	coVar += SqMatrix2D(reconsVar);
-- 
2.43.0


From d4497af15f4d6e357e83bc23ae126bd13907bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:58 +0000
Subject: [PATCH 036/118] fix: reject TIFF files without a readable directory

---
 libs/tex/io/tiffdirhandle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/tex/io/tiffdirhandle.cpp b/libs/tex/io/tiffdirhandle.cpp
index 2aa407f..f30667a 100644
--- a/libs/tex/io/tiffdirhandle.cpp
+++ b/libs/tex/io/tiffdirhandle.cpp
@@ -745,6 +745,9 @@ CqTiffFileHandle::CqTiffFileHandle(const boostfs::path& fileName, const char* op
 	if(!m_tiffPtr)
 		AQSIS_THROW_XQERROR(XqInvalidFile, EqE_NoFile,
 			"Could not open tiff file \"" << fileName << "\"");
+	if(m_isInputFile && numDirectories() == 0)
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
+			"No readable image in tiff file \"" << fileName << "\"");
 }
 
 CqTiffFileHandle::CqTiffFileHandle(std::istream& inputStream)
-- 
2.43.0


From a13d734baa50aa92f1fec6527604afbd4f44d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 037/118] fix: occlusion of a surface which no map faces is
 zero, not NaN

---
 libs/tex/filtering/occlusionsampler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/tex/filtering/occlusionsampler.cpp b/libs/tex/filtering/occlusionsampler.cpp
index e770b1e..7e8b686 100644
--- a/libs/tex/filtering/occlusionsampler.cpp
+++ b/libs/tex/filtering/occlusionsampler.cpp
@@ -348,7 +348,8 @@ void CqOcclusionSampler::sample(const Sq3DSamplePllgram& samplePllgram,
 	}
 
 	// Normalize the sample
-	*outSamps = totOcc / totNumSamples;
+	// If none of the maps face the surface there's nothing to occlude it.
+	*outSamps = totNumSamples > 0 ? totOcc / totNumSamples : 0;
 }
 
 const CqShadowSampleOptions& CqOcclusionSampler::defaultSampleOptions() const
-- 
2.43.0


From a1cb69e956b8bce100ad4edd34789a244344c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 038/118] fix: rotate() turns about the axis through its two
 points, not about the origin

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 25e0c5a..18c37dc 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -1085,8 +1085,9 @@ void CqShaderExecEnv::SO_rotate( IqShaderData* Q, IqShaderData* angle, IqShaderD
 			(P1)->GetPoint(_aq_P1,__iGrid);
 			CqMatrix matR( _aq_angle, _aq_P1 - _aq_P0 );
 
-			CqVector3D	Res( _aq_Q );
-			Res = matR * Res;
+			// The axis of rotation passes through P0 and P1.
+			CqVector3D	Res( _aq_Q - _aq_P0 );
+			Res = matR * Res + _aq_P0;
 
 			(Result)->SetPoint(Res,__iGrid);
 		}
-- 
2.43.0


From 1312af49afe1831f2c158250d5e77ec9436ae7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 039/118] fix: the shader VM executes the logical not which the
 compiler generates

---
 libs/shadervm/shadervm.cpp  |  1 +
 libs/shadervm/shadervm.h    |  1 +
 libs/shadervm/shadervm2.cpp | 23 +++++++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 35ee5b1..1f90c1a 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -230,6 +230,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
 
         {"land", 0, &CqShaderVM::SO_land, 0, {0}},
         {"lor", 0, &CqShaderVM::SO_lor, 0, {0}},
+        {"notf", 0, &CqShaderVM::SO_notf, 0, {0}},
 
         {"radians", 0, &CqShaderVM::SO_radians, 0, {0}},
         {"degrees", 0, &CqShaderVM::SO_degrees, 0, {0}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 8760a98..72363bf 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -483,6 +483,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_divmm();
 		void	SO_land();
 		void	SO_lor();
+		void	SO_notf();
 		void	SO_radians();
 		void	SO_degrees();
 		void	SO_sin();
diff --git a/libs/shadervm/shadervm2.cpp b/libs/shadervm/shadervm2.cpp
index 6a387b6..376b982 100644
--- a/libs/shadervm/shadervm2.cpp
+++ b/libs/shadervm/shadervm2.cpp
@@ -47,6 +47,29 @@ void CqShaderVM::SO_land()
 	RELEASE( A );
 }
 
+void CqShaderVM::SO_notf()
+{
+	AUTOFUNC;
+	POPV( A );
+	RESULT(type_float, __fVarying?class_varying:class_uniform);
+	if(m_pEnv->IsRunning())
+	{
+		const CqBitVector& RS = m_pEnv->RunningState();
+		TqUint size = __fVarying ? A->Size() : 1;
+		for(TqUint i = 0; i < size; ++i)
+		{
+			if(!__fVarying || RS.Value(i))
+			{
+				TqFloat a;
+				A->GetFloat(a, i);
+				pResult->SetFloat(a == 0.0f, i);
+			}
+		}
+	}
+	Push( pResult );
+	RELEASE( A );
+}
+
 void CqShaderVM::SO_lor()
 {
 	AUTOFUNC;
-- 
2.43.0


From a78fb3fa1da81768878d7404542788aaf365f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:10 +0000
Subject: [PATCH 040/118] fix: type check the arguments in the variable part of
 a function call

---
 libs/slcomp/parse/typecheck.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 3b2ff6f..4623164 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -225,6 +225,7 @@ TqInt	CqParseNodeFunctionCall::TypeCheck( TqInt* pTypes, TqInt Count,  bool& nee
 
 		CqFuncDef* pfunc = best.getFunc();
 		// Apply casts to the arguments first.
+		bool fTokens = false;
 		pArg = m_pChild;
 		TqUint iArg = 0;
 		while ( pArg != 0 )
@@ -232,8 +233,25 @@ TqInt	CqParseNodeFunctionCall::TypeCheck( TqInt* pTypes, TqInt Count,  bool& nee
 			CqParseNode * pNext = pArg->pNext();
 			// Get the required type for the function signature.
 			TqInt argType;
-			if ( (TqUint) pfunc->cTypeSpecLength() <= iArg || ( pfunc->fVarying() && (TqUint) pfunc->cTypeSpecLength() == iArg ) )
-				break;
+			if ( (TqUint) pfunc->cTypeSpecLength() <= iArg )
+			{
+				// Arguments in the variable part of the list either repeat the last
+				// specified type, or are the tokens and values of a parameter list, which
+				// keep their own type.
+				TqInt lastType = Type_Nil;
+				if ( !fTokens && iArg == (TqUint) pfunc->cTypeSpecLength() )
+					fTokens = ( pArg->ResType() & Type_Mask ) == Type_String;
+				if ( !fTokens && iArg > 0 )
+					lastType = pfunc->aTypeSpec().back() & Type_Mask;
+				bool castArg = false;
+				if ( lastType != Type_Nil && pArg->TypeCheck( &lastType, 1, castArg, true ) != Type_Nil )
+					pArg->TypeCheck( &lastType, 1, castArg, false );
+				else
+					pArg->TypeCheck( pAllTypes(), Type_Last - 1, castArg, false );
+				pArg = pNext;
+				iArg++;
+				continue;
+			}
 			else
 				argType = pfunc->aTypeSpec() [ iArg ];
 
-- 
2.43.0


From 8bd1fe2456de3ec8dee76f259d371071bbedcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:10 +0000
Subject: [PATCH 041/118] fix: a conditional expression has the type of its
 alternatives, not of its condition

---
 libs/slcomp/parse/parsenode.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index 74c342e..fcb4e11 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -1673,6 +1673,16 @@ class CqParseNodeQCond : public CqParseNode, public IqParseNodeConditionalExpres
 		{
 			return ( IqParseNodeConditionalExpression::m_ID );
 		}
+		virtual	TqInt	ResType() const
+		{
+			// The result has the type of the alternatives; a float is promoted to
+			// match the other one.
+			assert( m_pChild != 0 && m_pChild->pNext() != 0 && m_pChild->pNext()->pNext() != 0 );
+			TqInt typeTrue = m_pChild->pNext()->ResType();
+			if ( ( typeTrue & Type_Mask ) == Type_Float )
+				return ( m_pChild->pNext()->pNext()->ResType() );
+			return ( typeTrue );
+		}
 		virtual	void	Accept( IqParseNodeVisitor &V)
 		{
 			V.Visit(static_cast<IqParseNodeConditionalExpression&>(*this));
-- 
2.43.0


From 31e2dcc412792ee54c2986ecc3f7ba5450caf654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 042/118] fix: pass an array element to a function as its
 value, not as the whole array

---
 libs/slcomp/parse/parsenode.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index fcb4e11..d7d7e98 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -593,6 +593,11 @@ class CqParseNodeVariableArray : public CqParseNodeVariable, public IqParseNodeA
 		{
 			V.Visit(static_cast<IqParseNodeArrayVariable&>(*this));
 		}
+		virtual	bool	IsVariableRef() const
+		{
+			// Only the whole array refers to the variable, an element is a value.
+			return ( m_pChild == 0 );
+		}
 
 
 		virtual	TqInt	TypeCheck( TqInt* pTypes, TqInt Count, bool& needsCast, bool CheckOnly );
-- 
2.43.0


From 40db5496905849497f9818061cbb1ce2ef31754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:23 +0000
Subject: [PATCH 043/118] fix: the shader VM merges matrices in conditional
 expressions

---
 libs/shadervm/shadervm.cpp  |  1 +
 libs/shadervm/shadervm.h    |  1 +
 libs/shadervm/shadervm1.cpp | 31 +++++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 1f90c1a..f5338de 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -115,6 +115,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
         {"mergen", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergev", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergec", 0, &CqShaderVM::SO_mergec, 0, {0}},
+        {"mergem", 0, &CqShaderVM::SO_mergem, 0, {0}},
 
         {"pushif", 0, &CqShaderVM::SO_pushif, 1, {type_float}},
         {"puship", 0, &CqShaderVM::SO_puship, 3, {type_float, type_float, type_float}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 72363bf..58f0426 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -411,6 +411,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_merges();
 		void	SO_mergep();
 		void	SO_mergec();
+		void	SO_mergem();
 		void	SO_setfc();
 		void	SO_setfp();
 		void	SO_setfm();
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index f7db1ff..3d959b8 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -310,6 +310,37 @@ void CqShaderVM::SO_mergec()
 	RELEASE( F );
 }
 
+void CqShaderVM::SO_mergem()
+{
+	// Get the current state from the current stack entry
+	AUTOFUNC;
+	POPV( F );	// False statement
+	POPV( T );	// True statement
+	POPV( A );	// Relational result
+	RESULT(type_matrix, class_varying);
+	if(m_pEnv->IsRunning())
+	{
+		TqInt i;
+		TqInt ext = m_pEnv->shadingPointCount();
+		for ( i = 0; i < ext; i++ )
+		{
+			bool _aq_A;
+			CqMatrix _aq_T, _aq_F;
+			A->GetBool( _aq_A, i );
+			T->GetMatrix( _aq_T, i );
+			F->GetMatrix( _aq_F, i );
+			if ( _aq_A )
+				pResult->SetValue( _aq_T, i );
+			else
+				pResult->SetValue( _aq_F, i );
+		}
+	}
+	Push( pResult );
+	RELEASE( A );
+	RELEASE( T );
+	RELEASE( F );
+}
+
 void CqShaderVM::SO_setfc()
 {
 	AUTOFUNC;
-- 
2.43.0


From 3bbe9726e517a2e040431992b5d21954c21cf726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 044/118] fix: a declaration may hide an array of the same name
 in an enclosing scope

---
 libs/slcomp/parse/parser.yy | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index 187664a..2ddfd14 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -127,6 +127,7 @@ static void yyerror(const CqString& Message);
 
 %token <m_FloatConst>	FLOAT_CONSTANT
 %token <m_Identifier>	STRING_LITERAL
+%type  <m_pSymbol>	declared_symbol
 %type  <m_pParseNode>	file
 %type  <m_pParseNode>	definitions
 %type  <m_pParseNode>	shader_definition
@@ -773,7 +774,7 @@ def_expression
 								CqVarDef vardef(Type_Array, (strNameSpace()+*$1).c_str(), 0);
 								CqVarDef::AddVariable(vardef);
 							}
-	|	SYMBOL def_init		{
+	|	declared_symbol def_init		{
 								// Create a new declaration based on the name.
 								// TODO: Should warn about duplicate declarations.
 								CqString strName("");
@@ -787,7 +788,7 @@ def_expression
 								// Add the initialiser as the first child of the declaration.
 								$$->AddLastChild($2);
 							}
-	|	SYMBOL				{
+	|	declared_symbol				{
 								CqString strName("");
 								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
 								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
@@ -797,7 +798,7 @@ def_expression
 								CqVarDef vardef(Type_Void, (strNameSpace()+strName).c_str());
 								CqVarDef::AddVariable(vardef);
 							}
-	|	SYMBOL '[' number ']' {
+	|	declared_symbol '[' number ']' {
 								CqString strName("");
 								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
 								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
@@ -807,7 +808,7 @@ def_expression
 								CqVarDef vardef(Type_Array, (strNameSpace()+strName).c_str(), static_cast<TqInt>($3));
 								CqVarDef::AddVariable(vardef);
 							}
-	|	SYMBOL '[' number ']' def_array_initialisers
+	|	declared_symbol '[' number ']' def_array_initialisers
 							{
 								CqString strName("");
 								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
@@ -819,7 +820,7 @@ def_expression
 								CqVarDef::AddVariable(vardef);
 								$$->AddLastChild($5);
 							}
-	|	SYMBOL '[' ']' {
+	|	declared_symbol '[' ']' {
 								CqString strName("");
 								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
 								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
@@ -831,6 +832,16 @@ def_expression
 							}
 	;
 
+declared_symbol
+	:	SYMBOL				{
+								$$=$1;
+							}
+	|	ARRAY_SYMBOL		{
+								// Hides an array of the same name.
+								$$=$1;
+							}
+	;
+
 def_init
 	:	'=' expression		{
 								$$=$2;
-- 
2.43.0


From af0f830346a7b002a38704000bed072e4f44c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:59 +0000
Subject: [PATCH 045/118] fix: a variable hides one of the same name at any
 depth of nested scopes

---
 libs/slcomp/parse/parser.yy | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index 2ddfd14..e1e0ff2 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -54,6 +54,7 @@ EqShaderType gShaderType;
 bool	FindVariable(const char* name, SqVarRef& ref);
 bool	FindFunction(const char* name, std::vector<SqFuncRef>& Ref);
 CqString strNameSpace();
+CqString strUnscopedName(const CqString& name);
 void	pushScope(CqString name, bool terminal=false);
 CqString	popScope();
 void	TypeCheck();
@@ -778,8 +779,8 @@ def_expression
 								// Create a new declaration based on the name.
 								// TODO: Should warn about duplicate declarations.
 								CqString strName("");
-								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
-								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
+								if($1.eType&1)	strName=strUnscopedName(CqVarDef::GetVariablePtr($1.VarRef)->strName());
+								else			strName=strUnscopedName(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName());
 
 								$$=new CqParseNodeDeclaration(strName.c_str());
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
@@ -790,8 +791,8 @@ def_expression
 							}
 	|	declared_symbol				{
 								CqString strName("");
-								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
-								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
+								if($1.eType&1)	strName=strUnscopedName(CqVarDef::GetVariablePtr($1.VarRef)->strName());
+								else			strName=strUnscopedName(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName());
 
 								$$=new CqParseNodeDeclaration(strName.c_str());
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
@@ -800,8 +801,8 @@ def_expression
 							}
 	|	declared_symbol '[' number ']' {
 								CqString strName("");
-								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
-								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
+								if($1.eType&1)	strName=strUnscopedName(CqVarDef::GetVariablePtr($1.VarRef)->strName());
+								else			strName=strUnscopedName(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName());
 
 								$$=new CqParseNodeDeclaration(strName.c_str());
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
@@ -811,8 +812,8 @@ def_expression
 	|	declared_symbol '[' number ']' def_array_initialisers
 							{
 								CqString strName("");
-								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
-								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
+								if($1.eType&1)	strName=strUnscopedName(CqVarDef::GetVariablePtr($1.VarRef)->strName());
+								else			strName=strUnscopedName(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName());
 
 								$$=new CqParseNodeDeclaration(strName.c_str());
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
@@ -822,8 +823,8 @@ def_expression
 							}
 	|	declared_symbol '[' ']' {
 								CqString strName("");
-								if($1.eType&1)	strName=CqVarDef::GetVariablePtr($1.VarRef)->strName();
-								else			strName=CqFuncDef::GetFunctionPtr($1.FuncRef)->strName();
+								if($1.eType&1)	strName=strUnscopedName(CqVarDef::GetVariablePtr($1.VarRef)->strName());
+								else			strName=strUnscopedName(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName());
 
 								$$=new CqParseNodeDeclaration(strName.c_str());
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
@@ -2160,6 +2161,12 @@ CqString strNameSpace()
 	return(strRes);
 }
 
+CqString strUnscopedName(const CqString& name)
+{
+	CqString::size_type pos = name.rfind("::");
+	return(pos == CqString::npos ? name : CqString(name.substr(pos + 2)));
+}
+
 void pushScope(CqString name, bool terminal)
 {
 	std::pair<bool,CqString> n;
-- 
2.43.0


From efc84f6db4ed82ad2a4dc5132bd250138e0d491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:03 +0000
Subject: [PATCH 046/118] fix: a conditional expression keeps the type of its
 alternatives when any type will do

---
 libs/slcomp/parse/typecheck.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 4623164..08cc397 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -929,11 +929,6 @@ TqInt CqParseNodeCommFunction::TypeCheck( TqInt* pTypes, TqInt Count,  bool& nee
 
 TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast, bool CheckOnly )
 {
-	// Ensure that the conditional expression is type checked.
-	CqParseNode * pCondExp = m_pChild;
-	assert( pCondExp != 0 );
-	pCondExp->TypeCheck( pAllTypes(), Type_Last - 1, needsCast, CheckOnly );
-
 	// Check if both expressions match type.
 	CqParseNode * pTrue = m_pChild->pNext();
 	assert( pTrue != 0 );
@@ -943,6 +938,19 @@ TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast,
 	TqInt TypeT = ( pTrue->ResType() & Type_Mask );
 	TqInt TypeF = ( pFalse->ResType() & Type_Mask );
 
+	// Prefer the type of the expressions themselves if that is one of those requested.
+	TqInt ownType = ( ResType() & Type_Mask );
+	for ( TqInt own = 0; own < Count; own++ )
+	{
+		if ( ( pTypes[ own ] & Type_Mask ) == ownType && Count > 1 )
+			return ( TypeCheck( &ownType, 1, needsCast, CheckOnly ) );
+	}
+
+	// Ensure that the conditional expression is type checked.
+	CqParseNode * pCondExp = m_pChild;
+	assert( pCondExp != 0 );
+	pCondExp->TypeCheck( pAllTypes(), Type_Last - 1, needsCast, CheckOnly );
+
 	// See if they can both be cast to a requested type.
 	TqInt i;
 	for ( i = 0; i < Count; i++ )
-- 
2.43.0


From 17b9039d8f1ccaf842916735d71c7da0505d0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:31 +0000
Subject: [PATCH 047/118] fix: a conditional expression offers every type which
 both alternatives can have

---
 libs/slcomp/parse/parsenode.cpp | 33 +++++++++++++++++++++++++++++++++
 libs/slcomp/parse/parsenode.h   |  1 +
 libs/slcomp/parse/typecheck.cpp |  4 +++-
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/libs/slcomp/parse/parsenode.cpp b/libs/slcomp/parse/parsenode.cpp
index a1b2200..304b792 100644
--- a/libs/slcomp/parse/parsenode.cpp
+++ b/libs/slcomp/parse/parsenode.cpp
@@ -143,6 +143,39 @@ void CqParseNode::validTypes( std::list<std::pair<TqInt, TqInt> >& types)
 }
 
 
+///---------------------------------------------------------------------
+/** A conditional expression can have any type which both of its alternatives can have.
+ */
+
+void CqParseNodeQCond::validTypes( std::list<std::pair<TqInt, TqInt> >& types)
+{
+	std::list<std::pair<TqInt, TqInt> > typesTrue, typesFalse;
+	m_pChild->pNext()->validTypes( typesTrue );
+	m_pChild->pNext()->pNext()->validTypes( typesFalse );
+	std::vector<std::pair<TqInt, TqInt> > both;
+	std::list<std::pair<TqInt, TqInt> >::const_iterator t, f;
+	for ( t = typesTrue.begin(); t != typesTrue.end(); ++t )
+	{
+		TqInt type = t->first & Type_Mask;
+		bool known = false;
+		for ( TqUint i = 0; i < both.size(); ++i )
+			known = known || both[ i ].first == type;
+		if ( known )
+			continue;
+		for ( f = typesFalse.begin(); f != typesFalse.end(); ++f )
+		{
+			if ( ( f->first & Type_Mask ) == type )
+			{
+				both.push_back( std::pair<TqInt, TqInt>( type, std::min( t->second, f->second ) ) );
+				break;
+			}
+		}
+	}
+	std::stable_sort( both.begin(), both.end(), cmpCasts );
+	types.assign( both.begin(), both.end() );
+}
+
+
 ///---------------------------------------------------------------------
 /** Find the shader node, to aid in identifying the shader type.
  */
diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index d7d7e98..ef84568 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -1694,6 +1694,7 @@ class CqParseNodeQCond : public CqParseNode, public IqParseNodeConditionalExpres
 		}
 
 
+		virtual void	validTypes( std::list<std::pair<TqInt,TqInt> >& types );
 		virtual	TqInt	TypeCheck( TqInt* pTypes, TqInt Count, bool& needsCast, bool CheckOnly );
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 08cc397..830ea24 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -939,7 +939,9 @@ TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast,
 	TqInt TypeF = ( pFalse->ResType() & Type_Mask );
 
 	// Prefer the type of the expressions themselves if that is one of those requested.
-	TqInt ownType = ( ResType() & Type_Mask );
+	std::list<std::pair<TqInt, TqInt> > ownTypes;
+	validTypes( ownTypes );
+	TqInt ownType = ownTypes.empty() ? Type_Nil : ( ownTypes.front().first & Type_Mask );
 	for ( TqInt own = 0; own < Count; own++ )
 	{
 		if ( ( pTypes[ own ] & Type_Mask ) == ownType && Count > 1 )
-- 
2.43.0


From 6097c7187733655d45be1be806d5dbd9bc05d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 048/118] fix: vtransform and ntransform by a matrix transform
 as vectors and normals

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 18c37dc..5b4771c 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -294,7 +294,7 @@ void CqShaderExecEnv::SO_vtransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetVector(_aq_p,__iGrid);
-			(Result)->SetVector(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetVector(vectorTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -429,7 +429,7 @@ void CqShaderExecEnv::SO_ntransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetNormal(_aq_p,__iGrid);
-			(Result)->SetNormal(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetNormal(normalTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From d1d946702f32e0941c53e57693e9b18d36b4dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 049/118] fix: operands of a relation may be expressions of any
 type

---
 libs/slcomp/parse/typecheck.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 830ea24..4d83c50 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -565,6 +565,19 @@ TqInt	CqParseNodeAssignArray::TypeCheck( TqInt* pTypes, TqInt Count,  bool& need
 }
 
 
+///---------------------------------------------------------------------
+/// Determine if a list of valid types contains a given type.
+
+static bool containsType( const std::list<std::pair<TqInt, TqInt> >& types, TqInt type )
+{
+	std::list<std::pair<TqInt, TqInt> >::const_iterator i;
+	for ( i = types.begin(); i != types.end(); ++i )
+		if ( ( i->first & Type_Mask ) == ( type & Type_Mask ) )
+			return ( true );
+	return ( false );
+}
+
+
 ///---------------------------------------------------------------------
 /// CqParseNodeOp::TypeCheck
 /// Do a type check based on suitable types requested, and add a cast in required.
@@ -575,17 +588,17 @@ TqInt	CqParseNodeOp::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast, bo
 	CqParseNode * pOperandA = m_pChild;
 	CqParseNode* pOperandB = m_pChild->pNext();
 	assert( pOperandA != 0 && pOperandB != 0 );
-	TqInt TypeA = ( pOperandA->ResType() & Type_Mask );
-	TqInt TypeB = ( pOperandB->ResType() & Type_Mask );
+	std::list<std::pair<TqInt, TqInt> > typesA, typesB;
+	pOperandA->validTypes( typesA );
+	pOperandB->validTypes( typesB );
 
 	// See if they can both be cast to a requested type.
 	TqInt i;
 	for ( i = 0; i < Count; i++ )
 	{
-		TqInt index;
-		if ( FindCast( TypeA, &pTypes[ i ], 1, index ) != Type_Nil )
+		if ( containsType( typesA, pTypes[ i ] ) )
 		{
-			if ( FindCast( TypeB, &pTypes[ i ], 1, index ) != Type_Nil )
+			if ( containsType( typesB, pTypes[ i ] ) )
 			{
 				// Add any cast operators required.
 				if(!CheckOnly)
-- 
2.43.0


From 0034559dcd1eed1500fa4edc5aef6c92a243302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:43 +0000
Subject: [PATCH 050/118] fix: copying a parse node copies all of its children,
 not just the first

---
 libs/slcomp/parse/parsenode.h | 110 ++++++++++++++++------------------
 1 file changed, 52 insertions(+), 58 deletions(-)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index ef84568..8705bd3 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -44,6 +44,13 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 
 		CqParseNode() : m_pChild( 0 ), m_pParent( 0 ), m_fVarying( false ), m_LineNo( -1 )
 		{}
+		/// Copy everything but the links to other nodes: a copy starts out with no
+		/// parent, siblings or children.
+		CqParseNode( const CqParseNode& from ) :
+				CqListEntry<CqParseNode>(), IqParseNode(),
+				m_pChild( 0 ), m_pParent( 0 ), m_fVarying( from.m_fVarying ),
+				m_LineNo( from.m_LineNo ), m_strFileName( from.m_strFileName )
+		{}
 		virtual	~CqParseNode()
 		{
 			if ( m_pParent && m_pParent->m_pChild == this )
@@ -212,8 +219,7 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 		virtual	CqParseNode* Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNode * pNew = new CqParseNode();
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -242,6 +248,22 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 		}
 
 	protected:
+		/// Give pNew, which has no children yet, a copy of each child of this node.
+		void	CloneChildren( CqParseNode* pNew ) const
+		{
+			CqParseNode* pLast = 0;
+			for ( CqParseNode* pChild = m_pChild; pChild != 0; pChild = pChild->pNext() )
+			{
+				CqParseNode* pCopy = pChild->Clone();
+				if ( pLast == 0 )
+					pNew->m_pChild = pCopy;
+				else
+					pCopy->LinkAfter( pLast );
+				pCopy->m_pParent = pNew;
+				pLast = pCopy;
+			}
+		}
+
 		CqParseNode*	m_pChild;
 		CqParseNode*	m_pParent;
 		bool	m_fVarying;
@@ -313,8 +335,7 @@ class CqParseNodeShader : public CqParseNode, public IqParseNodeShader
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeShader * pNew = new CqParseNodeShader( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -381,8 +402,7 @@ class CqParseNodeFunctionCall : public CqParseNode, public IqParseNodeFunctionCa
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeFunctionCall * pNew = new CqParseNodeFunctionCall( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -444,8 +464,7 @@ class CqParseNodeUnresolvedCall : public CqParseNode, public IqParseNodeUnresolv
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeUnresolvedCall * pNew = new CqParseNodeUnresolvedCall( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -524,8 +543,7 @@ class CqParseNodeVariable : public CqParseNode, public IqParseNodeVariable
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeVariable * pNew = new CqParseNodeVariable( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -604,8 +622,7 @@ class CqParseNodeVariableArray : public CqParseNodeVariable, public IqParseNodeA
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeVariableArray * pNew = new CqParseNodeVariableArray( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -671,8 +688,7 @@ class CqParseNodeAssign : public CqParseNodeVariable, public IqParseNodeVariable
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeAssign * pNew = new CqParseNodeAssign( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -741,8 +757,7 @@ class CqParseNodeAssignArray : public CqParseNodeAssign, public IqParseNodeArray
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeAssignArray * pNew = new CqParseNodeAssignArray( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -839,8 +854,7 @@ class CqParseNodeMathOp : public CqParseNodeOp, public IqParseNodeMathOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeMathOp * pNew = new CqParseNodeMathOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -922,8 +936,7 @@ class CqParseNodeRelOp : public CqParseNodeOp, public IqParseNodeRelationalOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeRelOp * pNew = new CqParseNodeRelOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -982,8 +995,7 @@ class CqParseNodeUnaryOp : public CqParseNodeOp, public IqParseNodeUnaryOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeUnaryOp * pNew = new CqParseNodeUnaryOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1045,8 +1057,7 @@ class CqParseNodeLogicalOp : public CqParseNodeOp, public IqParseNodeLogicalOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeLogicalOp * pNew = new CqParseNodeLogicalOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1096,8 +1107,7 @@ class CqParseNodeDrop : public CqParseNode, public IqParseNodeDiscardResult
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeDrop * pNew = new CqParseNodeDrop( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1178,8 +1188,7 @@ class CqParseNodeFloatConst : public CqParseNodeConst, public IqParseNodeConstan
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeFloatConst * pNew = new CqParseNodeFloatConst( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1241,8 +1250,7 @@ class CqParseNodeStringConst : public CqParseNodeConst, public IqParseNodeConsta
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeStringConst * pNew = new CqParseNodeStringConst( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1292,8 +1300,7 @@ class CqParseNodeWhileConstruct : public CqParseNode, public IqParseNodeWhileCon
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeWhileConstruct * pNew = new CqParseNodeWhileConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1345,8 +1352,7 @@ class CqParseNodeLoopMod : public CqParseNode, public IqParseNodeLoopMod
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeLoopMod * pNew = new CqParseNodeLoopMod( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1402,8 +1408,7 @@ class CqParseNodeIlluminateConstruct : public CqParseNode, public IqParseNodeIll
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeIlluminateConstruct * pNew = new CqParseNodeIlluminateConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1460,8 +1465,7 @@ class CqParseNodeIlluminanceConstruct : public CqParseNode, public IqParseNodeIl
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeIlluminanceConstruct * pNew = new CqParseNodeIlluminanceConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1518,8 +1522,7 @@ class CqParseNodeSolarConstruct : public CqParseNode, public IqParseNodeSolarCon
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeSolarConstruct * pNew = new CqParseNodeSolarConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1567,8 +1570,7 @@ class CqParseNodeGatherConstruct : public CqParseNode, public IqParseNodeGatherC
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeGatherConstruct * pNew = new CqParseNodeGatherConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1618,8 +1620,7 @@ class CqParseNodeConditional : public CqParseNode, public IqParseNodeConditional
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeConditional * pNew = new CqParseNodeConditional( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1699,8 +1700,7 @@ class CqParseNodeQCond : public CqParseNode, public IqParseNodeConditionalExpres
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeQCond * pNew = new CqParseNodeQCond( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1765,8 +1765,7 @@ class CqParseNodeCast : public CqParseNode, public IqParseNodeTypeCast
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeCast * pNew = new CqParseNodeCast( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1820,8 +1819,7 @@ class CqParseNodeTriple : public CqParseNode, public IqParseNodeTriple
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeTriple * pNew = new CqParseNodeTriple( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1875,8 +1873,7 @@ class CqParseNodeHexTuple : public CqParseNode, public IqParseNodeSixteenTuple
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeHexTuple * pNew = new CqParseNodeHexTuple( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1956,8 +1953,7 @@ class CqParseNodeCommFunction : public CqParseNode, public IqParseNodeMessagePas
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeCommFunction * pNew = new CqParseNodeCommFunction( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -2022,8 +2018,7 @@ class CqParseNodeDeclaration : public CqParseNode
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeDeclaration * pNew = new CqParseNodeDeclaration( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -2069,8 +2064,7 @@ class CqParseNodeTextureNameWithChannel : public CqParseNode
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeTextureNameWithChannel * pNew = new CqParseNodeTextureNameWithChannel( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			CloneChildren( pNew );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
-- 
2.43.0


From 7c1c288c02158476a85dd3ca3aacde3761e9210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:41 +0000
Subject: [PATCH 051/118] fix: values on the VM's stack don't change when the
 variable they came from is assigned

---
 libs/shadervm/shaderstack.h | 23 +++++++++++++++++++++++
 libs/shadervm/shadervm1.cpp |  1 +
 2 files changed, 24 insertions(+)

diff --git a/libs/shadervm/shaderstack.h b/libs/shadervm/shaderstack.h
index 7a5fde5..167cd62 100644
--- a/libs/shadervm/shaderstack.h
+++ b/libs/shadervm/shaderstack.h
@@ -310,6 +310,29 @@ class AQSIS_SHADERVM_SHARE CqShaderStack
 			Push( s );
 		}
 
+		/** Keep the values which stack entries have from a variable.
+		 *
+		 * A variable is pushed by reference.  Before it is assigned to, any
+		 * entries still refering to it have to be replaced by copies, or they
+		 * would change along with the variable.
+		 *
+		 * \param pv variable which is about to be assigned to.
+		 */
+		void	Preserve( IqShaderData* pv )
+		{
+			for ( TqUint i = 0; i < m_iTop; i++ )
+			{
+				if ( m_Stack[ i ].m_Data == pv && !m_Stack[ i ].m_IsTemp )
+				{
+					IqShaderData* s = GetNextTemp( pv->Type(), pv->Class() );
+					s->SetSize( pv->Size() );
+					s->SetValueFromVariable( pv );
+					m_Stack[ i ].m_Data = s;
+					m_Stack[ i ].m_IsTemp = true;
+				}
+			}
+		}
+
 		/** Drop the top stack entry.
 		 */
 		void	Drop()
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index 3d959b8..6e7a027 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -135,6 +135,7 @@ void CqShaderVM::SO_pop()
 	TqInt iVar = ReadNext().m_iVariable;
 	IqShaderData* pV = GetVar( iVar );
 	POPV( Val );
+	Preserve( pV );
 	if(m_pEnv->IsRunning())
 	{
 		TqUint ext = max( m_pEnv->shadingPointCount(), pV->Size() );
-- 
2.43.0


From f5bc9615145ec13a57e85baad7c20cf0ebd89466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 052/118] fix: a uniform variable takes a varying value from a
 point which is running

---
 libs/shadervm/shadervariable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/shadervm/shadervariable.h b/libs/shadervm/shadervariable.h
index bb2e051..3993455 100644
--- a/libs/shadervm/shadervariable.h
+++ b/libs/shadervm/shadervariable.h
@@ -629,7 +629,7 @@ class CqShaderVariableUniform : public CqShaderVariable
 		 */
 		virtual	void	SetValueFromVariable( const IqShaderData* pVal, TqInt index )
 		{
-			SetValueFromVariable( pVal );
+			pVal->GetValue( m_Value, index );
 		}
 		/** Copy the values from the passed variable into this, taking into account any class differences.
 		 * \param pVal The variable to copy from.
-- 
2.43.0


From a07865e75a30e23a9d7318e7f44ae77c822d44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:54 +0000
Subject: [PATCH 053/118] fix: a conditional expression's type comes from the
 candidates which its alternatives' arguments fit

---
 libs/slcomp/parse/typecheck.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 4d83c50..5d08783 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -948,9 +948,6 @@ TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast,
 	CqParseNode* pFalse = pTrue->pNext();
 	assert( pFalse != 0 );
 
-	TqInt TypeT = ( pTrue->ResType() & Type_Mask );
-	TqInt TypeF = ( pFalse->ResType() & Type_Mask );
-
 	// Prefer the type of the expressions themselves if that is one of those requested.
 	std::list<std::pair<TqInt, TqInt> > ownTypes;
 	validTypes( ownTypes );
@@ -970,19 +967,18 @@ TqInt	CqParseNodeQCond::TypeCheck( TqInt* pTypes, TqInt Count,  bool& needsCast,
 	TqInt i;
 	for ( i = 0; i < Count; i++ )
 	{
-		TqInt index;
-		if ( FindCast( TypeT, &pTypes[ i ], 1, index ) != Type_Nil )
+		std::list<std::pair<TqInt, TqInt> >::const_iterator type = ownTypes.begin();
+		while ( type != ownTypes.end() && ( type->first & Type_Mask ) != ( pTypes[ i ] & Type_Mask ) )
+			++type;
+		if ( type != ownTypes.end() )
 		{
-			if ( FindCast( TypeF, &pTypes[ i ], 1, index ) != Type_Nil )
+			// Add any cast operators required.
+			if(!CheckOnly)
 			{
-				// Add any cast operators required.
-				if(!CheckOnly)
-				{
-					pTrue->TypeCheck( &pTypes[ i ], 1, needsCast, CheckOnly );
-					pFalse->TypeCheck( &pTypes[ i ], 1, needsCast, CheckOnly );
-				}
-				return ( pTypes[ i ] );
+				pTrue->TypeCheck( &pTypes[ i ], 1, needsCast, CheckOnly );
+				pFalse->TypeCheck( &pTypes[ i ], 1, needsCast, CheckOnly );
 			}
+			return ( pTypes[ i ] );
 		}
 	}
 
-- 
2.43.0


From 4fbe50f4fd47f3f127ceac6f6677c847ccfd8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:54 +0000
Subject: [PATCH 054/118] fix: evaluating a spline at NaN stays within its
 control points

---
 include/aqsis/math/spline.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/spline.h b/include/aqsis/math/spline.h
index 143ce54..441f4e7 100644
--- a/include/aqsis/math/spline.h
+++ b/include/aqsis/math/spline.h
@@ -165,8 +165,14 @@ CqCubicSpline<T>::CqCubicSpline( const CqString& strBasis, TqUint reservePoints
 template <class T>
 T CqCubicSpline<T>::evaluate( TqFloat t ) const
 {
-	TqFloat u = static_cast<TqFloat>( numSections() ) * t;
-	TqInt section = static_cast<TqInt>( u );
+	TqInt nsections = static_cast<TqInt>( numSections() );
+	TqFloat u = static_cast<TqFloat>( nsections ) * t;
+	// Stay within the control points, whatever (even NaN) t may be.
+	TqInt section = 0;
+	if ( u >= nsections )
+		section = nsections - 1;
+	else if ( u > 0 )
+		section = static_cast<TqInt>( u );
 	t = u - section;
 	TqInt iv = section * m_step;
 
-- 
2.43.0


From 551d3a798a2136623aea221ed8983ca1eb0d8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 055/118] fix: give every element of an array shader parameter
 its own instance value

---
 libs/shadervm/shadervm.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index f5338de..c2a4a1e 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -1767,7 +1767,7 @@ void CqShaderVM::InitialiseParameters( )
 		int count = 1, arrayindex = 0;
 		IqShaderData* pArray = NULL;
 
-		if ( m_StoredArguments[ i ].m_Value->ArrayLength() > 0 )
+		if ( m_LocalVars[ varindex ]->isArray() )
 		{
 			pArray = m_LocalVars[ varindex ];
 			count = pArray->ArrayLength();
@@ -1791,44 +1791,42 @@ void CqShaderVM::InitialiseParameters( )
 		while ( count-- > 0 )
 		{
 			// Get the specified value out.
-			IqShaderData* pVMVal = CreateTemporaryStorage(m_StoredArguments[i].m_Value->Type(), m_StoredArguments[i].m_Value->Class());
+			IqShaderData* pStored = m_StoredArguments[i].m_Value;
+			if ( pArray )
+				pStored = pStored->ArrayEntry( arrayindex );
+			IqShaderData* pVMVal = CreateTemporaryStorage(pStored->Type(), pStored->Class());
 
 			// If it is a color or a point, ensure it is the correct 'space'
 			if ( pVMVal->Type() == type_point || pVMVal->Type() == type_hpoint )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetPoint( p, 0 );
+				pStored->GetPoint( p, 0 );
 				pVMVal->SetPoint( pointTrans * p );
 			}
 			else if ( pVMVal->Type() == type_normal )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetNormal( p, 0 );
+				pStored->GetNormal( p, 0 );
 				pVMVal->SetNormal( normalTrans * p );
 			}
 			else if ( pVMVal->Type() == type_vector )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetVector( p, 0 );
+				pStored->GetVector( p, 0 );
 				pVMVal->SetVector( vectorTrans * p );
 			}
 			else if ( pVMVal->Type() == type_matrix )
 			{
 				CqMatrix m;
-				m_StoredArguments[i].m_Value->GetMatrix( m, 0 );
+				pStored->GetMatrix( m, 0 );
 				pVMVal->SetMatrix( pointTrans * m );
 			}
 			else
-			{
-				if ( pArray )
-					pVMVal->ArrayEntry(arrayindex)->SetValueFromVariable( m_StoredArguments[i].m_Value->ArrayEntry(arrayindex));
-				else
-					pVMVal->SetValueFromVariable(m_StoredArguments[i].m_Value);
-			}
+				pVMVal->SetValueFromVariable( pStored );
 
 			if ( pArray )
 			{
-				pArray->ArrayEntry( arrayindex ) ->SetValueFromVariable( pVMVal->ArrayEntry( arrayindex ) );
+				pArray->ArrayEntry( arrayindex ) ->SetValueFromVariable( pVMVal );
 				++arrayindex;
 			}
 			else
-- 
2.43.0


From 5e233e9f5c174f3154f2d06a150c927cde45e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:14 +0000
Subject: [PATCH 056/118] fix: copying an array shader variable copies every
 element

---
 libs/shadervm/shadervariable.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/shadervm/shadervariable.h b/libs/shadervm/shadervariable.h
index 3993455..118a616 100644
--- a/libs/shadervm/shadervariable.h
+++ b/libs/shadervm/shadervariable.h
@@ -366,7 +366,14 @@ class CqShaderVariableArray: public CqShaderVariable
 		 */
 		virtual	void	SetValueFromVariable( const IqShaderData* pVal )
 		{
-			m_aVariables[ 0 ] ->SetValueFromVariable( pVal );
+			if ( const CqShaderVariableArray* pArray = dynamic_cast<const CqShaderVariableArray*>( pVal ) )
+			{
+				assert( pArray->ArrayLength() == ArrayLength() );
+				for ( TqInt i = 0; i < ArrayLength() && i < pArray->ArrayLength(); ++i )
+					m_aVariables[ i ] ->SetValueFromVariable( (*pArray)[ i ] );
+			}
+			else
+				m_aVariables[ 0 ] ->SetValueFromVariable( pVal );
 		}
 		/** Set the all SIMD data ased on a state vector, only indexes whose bit is set are modified.
 		 * \param pVal The stack entry to assign.
-- 
2.43.0


From 78a3509e4e0b07f060d13f102c0ed3093ee3e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:22 +0000
Subject: [PATCH 057/118] fix: report the declared storage class of shader
 parameters

---
 libs/slxargs/slx.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libs/slxargs/slx.cpp b/libs/slxargs/slx.cpp
index c5bec84..fb8e297 100644
--- a/libs/slxargs/slx.cpp
+++ b/libs/slxargs/slx.cpp
@@ -240,7 +240,7 @@ static void FreeArgRecStorage( SLX_VISSYMDEF * theShaderArgArray, int theShaderN
  * Store info in the shader arg record specified by index
 */
 static RtInt StoreShaderArgDef( SLX_VISSYMDEF * theArgsArray, int argsArrayIdx,
-                                char * varName, SLX_TYPE varType, SLX_STORAGE storage,
+                                char * varName, SLX_TYPE varType, SLX_STORAGE storage, SLX_DETAIL detail,
 								char * spacename, char * defaultVal, int arrayLen )
 {
 	SLX_VISSYMDEF * theShaderArgRec;
@@ -256,7 +256,7 @@ static RtInt StoreShaderArgDef( SLX_VISSYMDEF * theArgsArray, int argsArrayIdx,
 
 	theShaderArgRec->svd_storage = storage;
 
-	theShaderArgRec->svd_detail = SLX_DETAIL_UNIFORM;
+	theShaderArgRec->svd_detail = detail;
 
 	theShaderArgRec->svd_spacename = spacename;
 
@@ -347,6 +347,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 	{
 		theType = shaderVar->Type();
 		theClass = shaderVar->Class();
+		SLX_DETAIL detail = ( theClass == class_varying ) ? SLX_DETAIL_VARYING : SLX_DETAIL_UNIFORM;
 
 		varNameCqStr = shaderVar->strName();
 		varNameCStr = ( char * ) varNameCqStr.c_str();
@@ -386,7 +387,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					spacename = ( char * ) malloc( 1 );
 					*spacename = 0x0;	// NULL string
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -423,7 +424,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					spacename = ( char * ) malloc( 1 );
 					*spacename = 0x0;	// NULL string
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -463,7 +464,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					strcpy( spacename, "current" );
 
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -503,7 +504,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					strcpy( spacename, "current" );
 
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -543,7 +544,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					strcpy( spacename, "current" );
 
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -583,7 +584,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					strcpy( spacename, "rgb" );
 
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
@@ -649,7 +650,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 					strcpy( spacename, "current" );
 
 					StoreShaderArgDef( theArgsArray, *theNArgs, theVarNameStr, slxType,
-					                   storage, spacename, defaultVal, arrayLen );
+					                   storage, detail, spacename, defaultVal, arrayLen );
 					( *theNArgs ) ++;
 				}
 				break;
-- 
2.43.0


From b3d9b437d3e8e525a81645ad1a0f7bc0c3bfd706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:32 +0000
Subject: [PATCH 058/118] fix: copies of array shader parameters are parameters
 too

---
 libs/shadervm/shadervariable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/shadervm/shadervariable.h b/libs/shadervm/shadervariable.h
index 118a616..18f6ddf 100644
--- a/libs/shadervm/shadervariable.h
+++ b/libs/shadervm/shadervariable.h
@@ -153,7 +153,7 @@ class CqShaderVariableArray: public CqShaderVariable
 		}
 		/** Copy constructor.
 		 */
-		CqShaderVariableArray( const CqShaderVariableArray& From ) : CqShaderVariable( From.m_strName.c_str() )
+		CqShaderVariableArray( const CqShaderVariableArray& From ) : CqShaderVariable( From.m_strName.c_str(), From.Storage() )
 		{
 			m_aVariables.resize( From.m_aVariables.size() );
 			for ( TqUint i = 0; i < From.m_aVariables.size(); i++ )
-- 
2.43.0


From b8f947e1b4ac4064e6b553bc0241909a508e4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 059/118] fix: displays of rgbz, rgbaz or a need the shaded
 colour and opacity too

---
 libs/core/ddmanager/ddmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 87f369f..ddf1cfc 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1182,7 +1182,7 @@ void CqDeepDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 bool CqDisplayRequest::ThisDisplayNeeds( const TqUlong& htoken, const TqUlong& rgb, const TqUlong& rgba,
         const TqUlong& Ci, const TqUlong& Oi, const TqUlong& Cs, const TqUlong& Os )
 {
-	bool usage = ( ( m_modeHash == rgba ) || ( m_modeHash == rgb ) );
+	bool usage = ( m_modeID & ( DMode_RGB | DMode_A ) ) != 0;
 
 	if ( (( htoken == Ci )|| ( htoken == Cs))&& usage )
 		return ( true );
-- 
2.43.0


From 3cb5b118b19758de2e39b868c19ee324d338c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 060/118] fix: output variables whose names begin with rgb, a
 or z are not taken for those channels

---
 libs/core/api/ri.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 0b1833e..572d2d0 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -963,6 +963,13 @@ RtVoid RiCxxCore::Display(RtConstToken name, RtConstToken type, RtConstToken mod
 		dataSize += 1;
 		index += strlen( RI_Z );
 	}
+	// A name which merely begins with one of these is some other output variable.
+	if ( mode[index] != '\0' )
+	{
+		eValue = 0;
+		dataSize = 0;
+		index = 0;
+	}
 
 	// Special case test.
 	if(strncmp(&mode[index], "depth", strlen("depth") ) == 0 )
-- 
2.43.0


From 94876e11d3be0b7f87979c355da2e63d59b351fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 061/118] fix: coverage enters alpha once only

---
 libs/core/bucketprocessor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 9e048a9..4e32224 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -699,9 +699,10 @@ void CqBucketProcessor::FilterBucket()
 			TqFloat coverage = aCoverages[ i++ ];
 			TqFloat *buffer = m_channelBuffer(x, y, OiIndex);
 
-			// Calculate the alpha as the combination of the opacity and the coverage.
+			// Calculate the alpha.  The filtered opacity already takes the
+			// coverage into account.
 			TqFloat a = ( buffer[0] + buffer[1] + buffer[2] ) / 3.0f;
-			m_channelBuffer(x, y, alphaIndex)[0] = a * coverage;
+			m_channelBuffer(x, y, alphaIndex)[0] = a;
 			m_channelBuffer(x, y, coverageIndex)[0] = coverage;
 		}
 	}
-- 
2.43.0


From 99b26c3543d007cd8c3a37787dd0b265d330c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 062/118] fix: matte surfaces hide what is behind them by their
 opacity, not their colour

---
 libs/core/imagepixel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 2531912..724a0c9 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -207,9 +207,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						lerp( sample_data[Sample_OBlue], samplecolor.b(), 0.0f )
 					);
 					sampleopacity = CqColor(
-						lerp( sample_data[Sample_Red], sampleopacity.r(), 0.0f ),
-						lerp( sample_data[Sample_Green], sampleopacity.g(), 0.0f ),
-						lerp( sample_data[Sample_Blue], sampleopacity.b(), 0.0f )
+						lerp( sample_data[Sample_ORed], sampleopacity.r(), 0.0f ),
+						lerp( sample_data[Sample_OGreen], sampleopacity.g(), 0.0f ),
+						lerp( sample_data[Sample_OBlue], sampleopacity.b(), 0.0f )
 					);
 				}
 				else
-- 
2.43.0


From 2584bcdd1a84eb2374d2a5b21adaa98c484737ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 063/118] fix: the average depth filter takes the surfaces
 which all of the z threshold admits

---
 libs/core/imagepixel.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 724a0c9..8950629 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -284,15 +284,13 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
 						{
 							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() || sample_data[Sample_OGreen] >= zThreshold.g() || sample_data[Sample_OBlue] >= zThreshold.b())
+							if(sample_data[Sample_ORed] >= zThreshold.r() && sample_data[Sample_OGreen] >= zThreshold.g() && sample_data[Sample_OBlue] >= zThreshold.b())
 							{
 								totDepth += sample_data[Sample_Depth];
 								totCount++;
 							}
 						}
-						totDepth /= totCount;
-
-						occlDepth = totDepth;
+						occlDepth = totCount > 0 ? totDepth / totCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From b3eaa7bbabf2d094c293a70cd57458c2caf4f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 064/118] fix: cull backfaces along the incident rays for
 orthographic cameras too

---
 libs/core/micropolygon.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 287a952..4b4dc77 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -435,8 +435,9 @@ void CqMicroPolyGrid::Shade( bool canCullGrid )
 		AQSIS_TIME_SCOPE(Backface_culling);
 
 		TqInt cCulled = 0;
-		const CqVector3D* pP = NULL;
-		pVar(EnvVars_P) ->GetPointPtr( pP );
+		// The incident ray rather than P, for orthographic cameras.
+		const CqVector3D* pI = NULL;
+		pVar(EnvVars_I) ->GetVectorPtr( pI );
 		const CqVector3D* pN = NULL;
 		if ( USES( lUses, EnvVars_N ) )
 			pVar(EnvVars_N) ->GetNormalPtr( pN );
@@ -455,7 +456,7 @@ void CqMicroPolyGrid::Shade( bool canCullGrid )
 			if(NULL != pN)
 				s = ( ( pN[i] * pNg[i] ) < 0.0f ) ? -1.0f : 1.0f;
 			// Calulate the direction the MPG is facing.
-			if ( ( ( s * pNg[ i ] ) * pP[ i ] ) >= 0 )
+			if ( ( ( s * pNg[ i ] ) * pI[ i ] ) >= 0 )
 			{
 				cCulled++;
 				STATS_INC( MPG_culled );
-- 
2.43.0


From 1674db5afef12f46b56f6ffaf4d77bf4d7a5c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 065/118] fix: cull moving backfaces along the incident rays
 for orthographic cameras too

---
 libs/core/micropolygon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 4b4dc77..137a302 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -959,6 +959,7 @@ void CqMotionMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 	// Check to see if this surface is single sided, if so, we can do backface culling.
 	bool canBeBFCulled = ( pAttributes() ->GetIntegerAttribute( "System", "Sides" ) [ 0 ] == 1 ) && !pGridA->usesCSG() &&
 						 ( pAttributes() ->GetIntegerAttributeDef( "cull", "backfacing", 1 ) == 1 );
+	bool orthographic = QGetRenderContext()->GetIntegerOption("System", "Projection")[0] == ProjectionOrthographic;
 
 	ADDREF( pGridA );
 
@@ -1016,7 +1017,8 @@ void CqMotionMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 				TqFloat s = 1.0f;
 				if(pN)
 					s = (pN[i] * pNg[i] < 0.0f) ? -1.0f : 1.0f;
-				if(s * pNg[i] * pP[i] >= 0)
+				CqVector3D incident = orthographic ? CqVector3D(0,0,pP[i].z()) : pP[i];
+				if(s * pNg[i] * incident >= 0)
 					totalBFCulled[i]++;
 			}
 		}
-- 
2.43.0


From 399d48ee0f2478764e48f7c5402a42e5c649e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 066/118] fix: GeneralPolygon leaves the orientation attribute
 alone

---
 libs/core/api/ri.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 572d2d0..69c51a5 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -1963,14 +1963,12 @@ RtVoid RiCxxCore::GeneralPolygon(const IntArray& nverts, const ParamList& pList)
 			{
 				/// \note: We need to check here if the orientation of the projected poly matches the
 				/// expected one, of not, we must swap the direction so that the triangulation routines can
-				/// correctly determine the inside/outside nature of points. However, if doing so breaks the
-				/// orientation as expected by the rest of the renderer, we need to flip the orientation
-				/// attribute as well so that normals are correctly calculated.
+				/// correctly determine the inside/outside nature of points. The triangles come out in the
+				/// original direction, so that normals are correctly calculated.
 				if( O )
 				{
 					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_AntiClockwise )
 					{
-						QGetRenderContext() ->pattrWriteCurrent()->GetIntegerAttributeWrite( "System", "Orientation" ) [ 0 ] = 0;
 						polya.SwapDirection();
 					}
 				}
@@ -1978,7 +1976,6 @@ RtVoid RiCxxCore::GeneralPolygon(const IntArray& nverts, const ParamList& pList)
 				{
 					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_Clockwise )
 					{
-						QGetRenderContext() ->pattrWriteCurrent()->GetIntegerAttributeWrite( "System", "Orientation" ) [ 0 ] = 1;
 						polya.SwapDirection();
 					}
 				}
-- 
2.43.0


From 6615eba47ab4f5a55428fc8f41415c27acd0b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:34 +0000
Subject: [PATCH 067/118] fix: buckets are at least as large as the pixel
 filter's reach

---
 libs/core/optioncache.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index 0f9b68d..7739a6a 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -21,6 +21,9 @@
 
 #include "optioncache.h"
 
+#include <algorithm>
+
+
 #include <aqsis/util/logging.h>
 #include <aqsis/util/sstring.h>
 
@@ -82,6 +85,10 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 		xBucketSize = bktSize[0];
 		yBucketSize = bktSize[1];
 	}
+	// Each bucket must be able to pass on the samples which the filters of its
+	// neighbours need.
+	xBucketSize = std::max(xBucketSize, std::max(1, 2*static_cast<TqInt>(xFiltSize/2)));
+	yBucketSize = std::max(yBucketSize, std::max(1, 2*static_cast<TqInt>(yFiltSize/2)));
 	// Eye split bound
 	maxEyeSplits = 10;
 	if(const TqInt* splits = opts.GetIntegerOption("limits", "eyesplits"))
-- 
2.43.0


From 2fc6c6214280a574e57c51904f170c61ec5991f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:55 +0000
Subject: [PATCH 068/118] fix: rounding does not make opaque micropolygons
 transparent

---
 libs/core/bucketprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 4e32224..b9884a6 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1548,6 +1548,9 @@ void CqBucketProcessor::StoreSample( CqMicroPolygon* pMPG, CqImagePixel* pie2, T
 	CqColor col;
 	CqColor opa;
 	pMPG->InterpolateOutputs(m_CurrentMpgSampleInfo, uv, col, opa);
+	// Interpolating must not leave opaque micropolygons slightly transparent.
+	if(m_CurrentMpgSampleInfo.isOpaque)
+		opa = gColWhite;
 
 	// Store the hit data for later use.
 	TqFloat* hitData = pie2->sampleHitData(*hit);
-- 
2.43.0


From 957b05d751c99c0cb8c27abcc399e38fb126b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:55 +0000
Subject: [PATCH 069/118] fix: samples outside the clipping planes are not
 visible

---
 libs/core/bucketprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index b9884a6..0f4bc68 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1479,6 +1479,10 @@ void CqBucketProcessor::StoreSample( CqMicroPolygon* pMPG, CqImagePixel* pie2, T
 		// without storing the hit data at all.
 		return;
 	}
+	// Nothing outside the clipping planes is visible.  (CSG solids need all of
+	// their surfaces.)
+	if((D < m_optCache.clipNear || D > m_optCache.clipFar) && !pMPG->pGrid()->usesCSG())
+		return;
 	// Record the sample hit in the stats.
 	CqStats::IncI( CqStats::SPL_hits );
 	pMPG->MarkHit();
-- 
2.43.0


From 614f630c68ce227760ea0c4a2607d559fa82bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:59 +0000
Subject: [PATCH 070/118] fix: the average depth filter judges the nearest
 surface by its own opacity

---
 libs/core/imagepixel.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 8950629..bf7cf18 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -193,6 +193,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 			bool samplehit = false;
 			TqFloat opaqueDepths[2] = { sampleData.occlZ, FLT_MAX };
 			TqFloat maxOpaqueDepth = FLT_MAX;
+			TqFloat totOpaqueDepth = 0.0f;
+			TqInt opaqueCount = 0;
 
 			for ( std::vector<SqImageSample>::reverse_iterator sample = sampleData.data.rbegin();
 			        sample != sampleData.data.rend();
@@ -236,6 +238,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					// Store the max opaque depth too, if not already stored.
 					if(!(maxOpaqueDepth < FLT_MAX))
 						maxOpaqueDepth = sample_data[Sample_Depth];
+					totOpaqueDepth += sample_data[Sample_Depth];
+					opaqueCount++;
 				}
 				samplehit = true;
 			}
@@ -278,19 +282,7 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					}
 					else if ( depthfilter == Filter_Average )
 					{
-						std::vector<SqImageSample>::iterator sample;
-						TqFloat totDepth = 0.0f;
-						TqInt totCount = 0;
-						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
-						{
-							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() && sample_data[Sample_OGreen] >= zThreshold.g() && sample_data[Sample_OBlue] >= zThreshold.b())
-							{
-								totDepth += sample_data[Sample_Depth];
-								totCount++;
-							}
-						}
-						occlDepth = totCount > 0 ? totDepth / totCount : FLT_MAX;
+						occlDepth = opaqueCount > 0 ? totOpaqueDepth / opaqueCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From 2f83540fb390100d52a7bc4ff4a0fe5a1c5cbafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 071/118] fix: displays in scanline order receive cropped
 images at their positions

---
 libs/core/ddmanager/ddmanager.cpp | 13 ++++++++++---
 tools/displays/exr/d_exr.cpp      |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index ddf1cfc..38dbd13 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1135,17 +1135,21 @@ bool CqDisplayRequest::CollapseBucketsToScanlines( const CqRegion& DRegion )
 	TqInt	xmaxplus1 = DRegion.xMax();
 	TqInt	ymaxplus1 = DRegion.yMax();
 	TqInt x, y;
+	// The scanlines hold the crop window only; pixels outside are dropped.
+	TqInt	cropXMin = QGetRenderContext()->cropWindowXMin();
+	TqInt	cropYMin = QGetRenderContext()->cropWindowYMin();
 
 	for (y = ymin; y < ymaxplus1; y++)
 	{
 		for (x = xmin; x < xmaxplus1; x++)
 		{
-			memcpy(&(m_DataRow[m_width * m_elementSize * (y - ymin) + m_elementSize * x]), pdata, m_elementSize);
+			if (x >= cropXMin && x < cropXMin + m_width && y >= cropYMin && y < cropYMin + m_height)
+				memcpy(&(m_DataRow[m_width * m_elementSize * (y - max(ymin, cropYMin)) + m_elementSize * (x - cropXMin)]), pdata, m_elementSize);
 			pdata += m_elementSize;
 		}
 	}
 
-	if (xmaxplus1 >= m_width)
+	if (xmin < cropXMin + m_width && xmaxplus1 >= cropXMin + m_width)
 	{
 		// Filled a scan line
 		Aqsis::log() << debug << "filled a scanline" << std::endl;
@@ -1165,11 +1169,14 @@ void CqDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 	TqInt y;
 	PtDspyError err;
 	unsigned char* pdata = m_DataRow;
+	TqInt xmin = QGetRenderContext()->cropWindowXMin();
+	ymin = max(ymin, QGetRenderContext()->cropWindowYMin());
+	ymaxplus1 = min(ymaxplus1, QGetRenderContext()->cropWindowYMin() + m_height);
 
 	// send to the display one line at a time
 	for (y = ymin; y < ymaxplus1; y++)
 	{
-		err = (m_DataMethod)(m_imageHandle, 0, m_width, y, y+1, m_elementSize, pdata);
+		err = (m_DataMethod)(m_imageHandle, xmin, xmin + m_width, y, y+1, m_elementSize, pdata);
 		pdata += m_elementSize * m_width;
 	}
 }
diff --git a/tools/displays/exr/d_exr.cpp b/tools/displays/exr/d_exr.cpp
index 26e3431..ef18334 100644
--- a/tools/displays/exr/d_exr.cpp
+++ b/tools/displays/exr/d_exr.cpp
@@ -349,7 +349,7 @@ Image::writePixels (int xMin, int xMaxPlusone,
 		_scanlinesReceived[yMin] = 0;
 	}
 
-	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * xMin;
+	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * (xMin - _bufferXMin);
 	toInc = _bufferPixelSize;
 
 	for(LayerChannelList::iterator i = layers()[layerName].channelList.begin(), e = layers()[layerName].channelList.end(); i != e; ++i)
-- 
2.43.0


From ec5dc9d0083aac73781e2e3a50e525b16aa3d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 072/118] fix: long image descriptions do not overrun a buffer
 in the file display

---
 tools/displays/file/display.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index ae02f74..6030d4a 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -110,7 +110,7 @@ static std::string description;
 *
 */
 
-void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, char *mydescription)
+void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, const char *mydescription)
 {
 	TqChar version[ 80 ];
 	TqUint twidth = 32;
@@ -229,7 +229,7 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 	uint16_t photometric = PHOTOMETRIC_RGB;
 	uint16_t config = PLANARCONFIG_CONTIG;
 	struct tm *ct;
-	char mydescription[80];
+	std::string mydescription;
 	int year;
 
 	time_t long_time;
@@ -245,12 +245,14 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 	if (description.empty())
 	{
 		double nSecs = difftime(long_time, start);
-		sprintf(mydescription,"Aqsis Renderer, %d secs rendertime", static_cast<TqInt>(nSecs));
+		char rendertime[80];
+		sprintf(rendertime,"Aqsis Renderer, %d secs rendertime", static_cast<TqInt>(nSecs));
+		mydescription = rendertime;
 		start = long_time;
 	}
 	else
 	{
-		strcpy(mydescription, description.c_str());
+		mydescription = description;
 	}
 
 
@@ -258,7 +260,7 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 	// If in "shadowmap" mode, write as a shadowmap.
 	if( image->m_imageType == Type_Shadowmap )
 	{
-		SaveAsShadowMap(filename, image, mydescription);
+		SaveAsShadowMap(filename, image, mydescription.c_str());
 		return;
 	}
 	else if( image->m_imageType == Type_ZFile )
@@ -317,7 +319,7 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 		TIFFSetField( pOut, TIFFTAG_DATETIME, datetime);
 		if (!image->m_hostname.empty())
 			TIFFSetField( pOut, TIFFTAG_HOSTCOMPUTER, image->m_hostname.c_str() );
-		TIFFSetField( pOut, TIFFTAG_IMAGEDESCRIPTION, mydescription);
+		TIFFSetField( pOut, TIFFTAG_IMAGEDESCRIPTION, mydescription.c_str());
 
 		// Set the position tages in case we aer dealing with a cropped image.
 		TIFFSetField( pOut, TIFFTAG_XPOSITION, ( float ) image->m_origin[0] );
-- 
2.43.0


From 59fe241462edaca6d9530148a0dda57abaa2596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 073/118] fix: the shadow display writes all tiles of a map
 taller than wide

---
 tools/displays/file/display.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index 6030d4a..0ede97b 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -182,7 +182,7 @@ void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, cons
 
 			if ( ptile != NULL )
 			{
-				TqUint ctiles = tperrow * ( ( image->m_width + tlength - 1 ) / tlength );
+				TqUint ctiles = tperrow * ( ( image->m_height + tlength - 1 ) / tlength );
 				TqUint itile;
 				for ( itile = 0; itile < ctiles; itile++ )
 				{
-- 
2.43.0


From ad106cfb13dbbb486349366a407f21ec4e098e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 074/118] fix: the file display marks 32 bit integers as such

---
 tools/displays/file/display.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index 0ede97b..a615965 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -395,6 +395,10 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
 				TIFFSetField( pOut, TIFFTAG_BITSPERSAMPLE, 16 );
 			}
+			else if (image->m_format == PkDspyUnsigned32)
+			{
+				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
+			}
 
 			TIFFSetField( pOut, TIFFTAG_SAMPLESPERPIXEL, image->m_iFormatCount );
 
-- 
2.43.0


From 7d1a078b13adf12f63dd3a0a9e6055cf2eadeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:00 +0000
Subject: [PATCH 075/118] fix: the header of bmp images has its proper size
 where long has 64 bits

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index 1be42ba..0dc390f 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -65,14 +65,14 @@ typedef struct tagRGBQUAD { // rgbq
 
 typedef struct tagBITMAPINFOHEADER{ // bmih 
     int     biSize; 
-    long    biWidth; 
-    long    biHeight; 
+    int     biWidth; 
+    int     biHeight; 
     short   biPlanes; 
     short   biBitCount;
     int     biCompression; 
     int     biSizeImage; 
-    long    biXPelsPerMeter; 
-    long    biYPelsPerMeter; 
+    int     biXPelsPerMeter; 
+    int     biYPelsPerMeter; 
     int     biClrUsed; 
     int     biClrImportant; 
 } BITMAPINFOHEADER; 
-- 
2.43.0


From 0e6911082fac71dbabb2ffd9226b4b391f070492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:00 +0000
Subject: [PATCH 076/118] fix: the bmp display places cropped images in the
 file

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index 0dc390f..b0c7ba2 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -100,6 +100,7 @@ typedef struct
 	int               Channels;
 	int               RowSize;
 	int               PixelBytes;
+	int               Origin[2];
 	long              TotalPixels;
 }
 AppData;
@@ -183,6 +184,11 @@ extern "C" PtDspyError DspyImageOpen(PtDspyImageHandle    *image,
 	g_Data.FileName = strdup(filename);
 	g_Data.Channels = formatCount;
 
+	for ( int i = 0; i < paramCount; i++ )
+	{
+		if ( strcmp(parameters[i].name, "origin") == 0 && parameters[i].vtype == 'i' && parameters[i].vcount == 2 )
+			memcpy(g_Data.Origin, parameters[i].value, sizeof(g_Data.Origin));
+	}
 	g_Data.PixelBytes = 3; // One byte for red, one for green, and one for blue.
 
 	g_Data.bmi.bmiHeader.biSize        = sizeof(BITMAPINFOHEADER);
@@ -413,8 +419,8 @@ extern "C" PtDspyError DspyImageData(PtDspyImageHandle image,
 	}
 
 	spot  = pData->bfh.bfOffBits +
-	        (pData->RowSize * (pData->bmi.bmiHeader.biHeight - ymin - 1));
-	spot += pData->PixelBytes * xmin;
+	        (pData->RowSize * (pData->bmi.bmiHeader.biHeight - (ymin - pData->Origin[1]) - 1));
+	spot += pData->PixelBytes * (xmin - pData->Origin[0]);
 
 	if ( fseek(pData->fp, spot, SEEK_SET) != 0 )
 	{
-- 
2.43.0


From 8ec2b47da3aa6af6b12260d17b050328d1cad87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 077/118] fix: a secondary display whose driver cannot be
 loaded is skipped

The members of a display request were not initialised, so closing a
display that was never opened called through random pointers.
---
 libs/core/ddmanager/ddmanager.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 92438f0..df8752c 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -91,7 +91,11 @@ struct SqDDMemberData
 class CqDisplayRequest : public IqDisplayRequest
 {
 	public:
-		CqDisplayRequest()
+		CqDisplayRequest() :
+				m_DriverHandle(0), m_imageHandle(0),
+				m_OpenMethod(0), m_QueryMethod(0), m_DataMethod(0),
+				m_CloseMethod(0), m_DelayCloseMethod(0),
+				m_isLoaded(false), m_DataRow(0), m_DataBucket(0)
 		{}
 
 		CqDisplayRequest(bool valid, const TqChar* name, const TqChar* type, const TqChar* mode,
@@ -99,9 +103,10 @@ class CqDisplayRequest : public IqDisplayRequest
 		                 TqFloat quantizeMinVal, TqFloat quantizeMaxVal, TqFloat quantizeDitherVal, bool quantizeSpecified, bool quantizeDitherSpecified) :
 				m_valid(valid), m_name(name), m_type(type), m_mode(mode),
 				m_modeHash(modeHash), m_modeID(modeID), m_AOVOffset(dataOffset),
-				m_AOVSize(dataSize), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
+				m_AOVSize(dataSize), m_DriverHandle(0), m_imageHandle(0), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
 				m_QuantizeMinVal(quantizeMinVal), m_QuantizeMaxVal(quantizeMaxVal), m_QuantizeDitherVal(quantizeDitherVal), m_QuantizeSpecified(quantizeSpecified), m_QuantizeDitherSpecified(quantizeDitherSpecified),
-				m_isLoaded(false)
+				m_OpenMethod(0), m_QueryMethod(0), m_DataMethod(0), m_CloseMethod(0), m_DelayCloseMethod(0),
+				m_isLoaded(false), m_DataRow(0), m_DataBucket(0)
 		{}
 		virtual ~CqDisplayRequest();
 
-- 
2.43.0


From 2c7163f352798124981e74fe795ce6ee79800286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:21 +0000
Subject: [PATCH 078/118] fix: looking for one display driver's functions does
 not rename those of the next

---
 libs/core/ddmanager/ddmanager.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 38dbd13..3f4e0f4 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -358,36 +358,36 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 			m_OpenMethod = (DspyImageOpenMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strOpenMethod );
 			if (!m_OpenMethod)
 			{
-				ddMemberData.m_strOpenMethod = "_" + ddMemberData.m_strOpenMethod;
-				m_OpenMethod = (DspyImageOpenMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strOpenMethod );
+				CqString altName = "_" + ddMemberData.m_strOpenMethod;
+				m_OpenMethod = (DspyImageOpenMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &altName );
 			}
 
 			m_QueryMethod = (DspyImageQueryMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strQueryMethod );
 			if (!m_QueryMethod)
 			{
-				ddMemberData.m_strQueryMethod = "_" + ddMemberData.m_strQueryMethod;
-				m_QueryMethod = (DspyImageQueryMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strQueryMethod );
+				CqString altName = "_" + ddMemberData.m_strQueryMethod;
+				m_QueryMethod = (DspyImageQueryMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &altName );
 			}
 
 			m_DataMethod = (DspyImageDataMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strDataMethod );
 			if (!m_DataMethod)
 			{
-				ddMemberData.m_strDataMethod = "_" + ddMemberData.m_strDataMethod;
-				m_DataMethod = (DspyImageDataMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strDataMethod );
+				CqString altName = "_" + ddMemberData.m_strDataMethod;
+				m_DataMethod = (DspyImageDataMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &altName );
 			}
 
 			m_CloseMethod = (DspyImageCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strCloseMethod );
 			if (!m_CloseMethod)
 			{
-				ddMemberData.m_strCloseMethod = "_" + ddMemberData.m_strCloseMethod;
-				m_CloseMethod = (DspyImageCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strCloseMethod );
+				CqString altName = "_" + ddMemberData.m_strCloseMethod;
+				m_CloseMethod = (DspyImageCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &altName );
 			}
 
 			m_DelayCloseMethod = (DspyImageDelayCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strDelayCloseMethod );
 			if (!m_DelayCloseMethod)
 			{
-				ddMemberData.m_strDelayCloseMethod = "_" + ddMemberData.m_strDelayCloseMethod;
-				m_DelayCloseMethod = (DspyImageDelayCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &ddMemberData.m_strDelayCloseMethod );
+				CqString altName = "_" + ddMemberData.m_strDelayCloseMethod;
+				m_DelayCloseMethod = (DspyImageDelayCloseMethod)dspyPlugin.SimpleDLSym( m_DriverHandle, &altName );
 			}
 		}
 		catch(XqPluginError &e)
-- 
2.43.0


From eadf59efeb7b904f23e74b94999ecaf9f518f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:16 +0000
Subject: [PATCH 079/118] fix: a display which could not be opened is not
 closed

---
 libs/core/ddmanager/ddmanager.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 3f4e0f4..da4b24e 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -640,10 +640,14 @@ void CqDisplayRequest::CloseDisplayLibrary()
 {
 	// Call the DspyImageClose method on the display to shut things down.
 	// If there is a delayed close method, call it in preference.
-	if ( m_DelayCloseMethod)
-		(*m_DelayCloseMethod)(m_imageHandle);
-	else if ( NULL != m_CloseMethod )
-		(*m_CloseMethod)(m_imageHandle);
+	// A display which was never successfully opened has no image to close.
+	if ( m_valid )
+	{
+		if ( m_DelayCloseMethod)
+			(*m_DelayCloseMethod)(m_imageHandle);
+		else if ( NULL != m_CloseMethod )
+			(*m_CloseMethod)(m_imageHandle);
+	}
 
 	if (m_DataBucket != 0)
 	{
-- 
2.43.0


From 98245ee85d02f878d541071d147aef91322692c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:42 +0000
Subject: [PATCH 080/118] fix: shaders set before WorldBegin keep their
 parameters

---
 libs/shadervm/shadervm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index c2a4a1e..1fdc780 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -1718,9 +1718,10 @@ void CqShaderVM::PrepareShaderForUse( )
 	// was defined within the world. If defined outside the world, the shader state is constant
 	// irrespective of any changes introduced during the render pass (i.e. autoshadows etc.).
 
-	// However Imager shader are defined outside of the world... therefore it is required
-	// to call InitialiseParameters().
-	if(!m_outsideWorld || m_Type == Type_Imager)
+	// However, only light sources have their parameters initialised when they
+	// are defined outside of the world; for any other shader it is required
+	// to call InitialiseParameters() here.
+	if(!m_outsideWorld || m_Type != Type_Lightsource)
 		InitialiseParameters();
 
  	switch (m_Type)
-- 
2.43.0


From 9605d08436fdddfec3f219f90b01ba61007e1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:57 +0000
Subject: [PATCH 081/118] fix: subdivision patches use the attributes of their
 mesh

---
 libs/core/geometry/subdivision2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/core/geometry/subdivision2.h b/libs/core/geometry/subdivision2.h
index 9b70292..565e181 100644
--- a/libs/core/geometry/subdivision2.h
+++ b/libs/core/geometry/subdivision2.h
@@ -237,6 +237,9 @@ class CqSurfaceSubdivisionPatch : public CqSurface
 			m_Uses = Uses();
 			m_Time = QGetRenderContextI()->Time();
 			m_FaceIndex = faceIndex;
+			// The patches are created long after the mesh was declared, so take
+			// the attributes and transform from there, not from the current state.
+			SetSurfaceParameters( *m_pTopology->pPoints() );
 		}
 
 		virtual	~CqSurfaceSubdivisionPatch()
-- 
2.43.0


From 21438eb10f4ef94b447a05597ac9c7d06ef112e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:46 +0000
Subject: [PATCH 082/118] fix: quadrics seen edge-on are diced into at least
 one micropolygon each way

---
 libs/core/geometry/quadrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 1f7e664..27d3345 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -331,8 +331,8 @@ TqUlong CqQuadric::EstimateGridSize(const CqMatrix& matCtoR)
 	maxvsize = sqrt( maxvsize );
 
 	TqFloat sqrtShadingRate = sqrt(AdjustedShadingRate());
-	m_uDiceSize = lceil(ESTIMATEGRIDSIZE * maxusize/sqrtShadingRate);
-	m_vDiceSize = lceil(ESTIMATEGRIDSIZE * maxvsize/sqrtShadingRate);
+	m_uDiceSize = max<TqInt>(lceil(ESTIMATEGRIDSIZE * maxusize/sqrtShadingRate), 1);
+	m_vDiceSize = max<TqInt>(lceil(ESTIMATEGRIDSIZE * maxvsize/sqrtShadingRate), 1);
 
 	// Ensure power of 2 to avoid cracking
 	const TqInt *binary = pAttributes() ->GetIntegerAttribute( "dice", "binary" );
-- 
2.43.0


From 5a240e7bd3d5524972392d0e892f2f3d5e798996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:58 +0000
Subject: [PATCH 083/118] fix: curves can be shaded using only some of s, t, u
 and v

---
 libs/core/geometry/cubiccurves.cpp  | 12 +++++++++---
 libs/core/geometry/linearcurves.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libs/core/geometry/cubiccurves.cpp b/libs/core/geometry/cubiccurves.cpp
index dc02ab0..e33a74d 100644
--- a/libs/core/geometry/cubiccurves.cpp
+++ b/libs/core/geometry/cubiccurves.cpp
@@ -479,20 +479,26 @@ TqInt CqCubicCurveSegment::SplitToPatch(
 	TqInt bUses = Uses();
 
 	// set u, v coordinates of the patch
-	if ( USES( bUses, EnvVars_u ) || USES( bUses, EnvVars_v ) )
+	if ( USES( bUses, EnvVars_u ) )
 	{
 		pPatch->u()->pValue( 0 )[0] = pPatch->u()->pValue( 2 )[0] = 0.0;
 		pPatch->u()->pValue( 1 )[0] = pPatch->u()->pValue( 3 )[0] = 1.0;
+	}
+	if ( USES( bUses, EnvVars_v ) )
+	{
 		pPatch->v()->pValue( 0 )[0] = pPatch->v()->pValue( 1 )[0] = v()->pValue( 0 )[0];
 		pPatch->v()->pValue( 2 )[0] = pPatch->v()->pValue( 3 )[0] = v()->pValue( 1 )[0];
 	}
 
 	// helllllp!!! WHAT DO I DO WITH s,t!!!???
 	//  for now, they're set equal to u and v
-	if ( USES( bUses, EnvVars_s ) || USES( bUses, EnvVars_t ) )
+	if ( USES( bUses, EnvVars_s ) )
 	{
 		pPatch->s()->pValue( 0 )[0] = pPatch->s()->pValue( 2 )[0] = 0.0;
 		pPatch->s()->pValue( 1 )[0] = pPatch->s()->pValue( 3 )[0] = 1.0;
+	}
+	if ( USES( bUses, EnvVars_t ) )
+	{
 		pPatch->t()->pValue( 0 )[0] = pPatch->t()->pValue( 1 )[0] = v()->pValue( 0 )[0];
 		pPatch->t()->pValue( 2 )[0] = pPatch->t()->pValue( 3 )[0] = v()->pValue( 1 )[0];
 	}
@@ -901,7 +907,7 @@ TqInt CqCubicCurvesGroup::Split(
 			pSeg->SetSurfaceParameters( *this );
 
 			// set the value of "v"
-			if ( USES( bUses, EnvVars_v ) )
+			if ( USES( bUses, EnvVars_v ) || USES( bUses, EnvVars_t ) )
 			{
 				CqParameterTypedVarying <
 				TqFloat, type_float, TqFloat
diff --git a/libs/core/geometry/linearcurves.cpp b/libs/core/geometry/linearcurves.cpp
index 58687af..064649c 100644
--- a/libs/core/geometry/linearcurves.cpp
+++ b/libs/core/geometry/linearcurves.cpp
@@ -291,20 +291,26 @@ TqInt CqLinearCurveSegment::SplitToPatch(
 	TqInt bUses = Uses();
 
 	// set u, v coordinates of the patch
-	if ( USES( bUses, EnvVars_u ) || USES( bUses, EnvVars_v ) )
+	if ( USES( bUses, EnvVars_u ) )
 	{
 		pPatch->u()->pValue( 0 )[0] = pPatch->u()->pValue( 2 )[0] = 0.0;
 		pPatch->u()->pValue( 1 )[0] = pPatch->u()->pValue( 3 )[0] = 1.0;
+	}
+	if ( USES( bUses, EnvVars_v ) )
+	{
 		pPatch->v()->pValue( 0 )[0] = pPatch->v()->pValue( 1 )[0] = v()->pValue( 0 )[0];
 		pPatch->v()->pValue( 2 )[0] = pPatch->v()->pValue( 3 )[0] = v()->pValue( 1 )[0];
 	}
 
 	// helllllp!!! WHAT DO I DO WITH s,t!!!???
 	//  for now, they're set equal to u and v
-	if ( USES( bUses, EnvVars_s ) || USES( bUses, EnvVars_t ) )
+	if ( USES( bUses, EnvVars_s ) )
 	{
 		pPatch->s()->pValue( 0 )[0] = pPatch->s()->pValue( 2 )[0] = 0.0;
 		pPatch->s()->pValue( 1 )[0] = pPatch->s()->pValue( 3 )[0] = 1.0;
+	}
+	if ( USES( bUses, EnvVars_t ) )
+	{
 		pPatch->t()->pValue( 0 )[0] = pPatch->t()->pValue( 1 )[0] = v()->pValue( 0 )[0];
 		pPatch->t()->pValue( 2 )[0] = pPatch->t()->pValue( 3 )[0] = v()->pValue( 1 )[0];
 	}
@@ -496,7 +502,7 @@ TqInt CqLinearCurvesGroup::Split( std::vector<boost::shared_ptr<CqSurface> >& aS
 			pSeg->SetSurfaceParameters( *this );
 
 			// set the value of "v"
-			if ( USES( bUses, EnvVars_v ) )
+			if ( USES( bUses, EnvVars_v ) || USES( bUses, EnvVars_t ) )
 			{
 				TqFloat vv = ( TqFloat ) segI /
 				             ( TqFloat ) lastSegment;
-- 
2.43.0


From 1845b66c707a54bc93a0d2cb82a6b1e370855a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:25 +0000
Subject: [PATCH 084/118] fix: buckets start each image without results of the
 last one

---
 libs/core/imagebuffer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/core/imagebuffer.cpp b/libs/core/imagebuffer.cpp
index fadc097..282a5f7 100644
--- a/libs/core/imagebuffer.cpp
+++ b/libs/core/imagebuffer.cpp
@@ -209,6 +209,9 @@ void	CqImageBuffer::SetImage()
 		for ( b = i->begin(); b!=i->end(); b++ )
 		{
 			b->SetProcessed( false );
+			// Buckets at the edge of the last image may hold on to results
+			// which none of their neighbours needed.
+			b->clearCache();
 			b->setCol( column );
 			b->setRow( row );
 			TqInt colSize = xRes - colPos;
-- 
2.43.0


From 9a7495959fe56e12017f555ce2f616b5f7f960f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 085/118] fix: a transformation before the projection ends with
 its frame

---
 libs/core/renderer.cpp | 2 ++
 libs/core/renderer.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index 8d97e76..de1617e 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -196,6 +196,7 @@ boost::shared_ptr<CqModeBlock>	CqRenderer::BeginFrameModeBlock()
 		boost::shared_ptr<CqModeBlock> pconNew = m_pconCurrent->BeginFrameModeBlock();
 		if ( pconNew )
 		{
+			m_framePreProjectionTransform = m_preProjectionTransform;
 			m_pconCurrent = pconNew;
 			return ( pconNew );
 		}
@@ -395,6 +396,7 @@ void	CqRenderer::EndFrameModeBlock()
 	{
 		m_pconCurrent->EndFrameModeBlock();
 		m_pconCurrent = m_pconCurrent->pconParent();
+		m_preProjectionTransform = m_framePreProjectionTransform;
 	}
 }
 
diff --git a/libs/core/renderer.h b/libs/core/renderer.h
index 42da935..abf500e 100644
--- a/libs/core/renderer.h
+++ b/libs/core/renderer.h
@@ -549,6 +549,7 @@ class CqRenderer : public IqRenderer
 		CqTransformPtr	m_pTransCamera;					///< The camera transform.
 		CqTransformPtr	m_pTransDefObj;				///< The initial transformation for objects.
 		CqTransformPtr	m_preProjectionTransform;	///< The transformation that was applied prior to projection.
+		CqTransformPtr	m_framePreProjectionTransform;	///< The pre projection transformation to restore at the end of the frame.
 		bool			m_fWorldBegin;
 		/// Renderman symbol table
 		TokenDict m_tokenDict;
-- 
2.43.0


From 0585492cc57152efa4678cc20e48d6175ebbdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 086/118] fix: split a NURBS mesh into its segments before
 dicing it

A small mesh was diced directly with the first four varying values only.
---
 libs/core/geometry/nurbs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/geometry/nurbs.cpp b/libs/core/geometry/nurbs.cpp
index 98e58ba..e952f67 100644
--- a/libs/core/geometry/nurbs.cpp
+++ b/libs/core/geometry/nurbs.cpp
@@ -1655,6 +1655,10 @@ bool	CqSurfaceNURBS::Diceable(const CqMatrix& matCtoR)
 	if ( !m_fDiceable )
 		return ( false );
 
+	// A mesh of several patches has varying values per segment, so must be split into its patches first.
+	if ( fPatchMesh() && ( cuSegments() > 1 || cvSegments() > 1 ) )
+		return ( false );
+
 	// Otherwise we should continue to try to find the most advantageous split direction, OR the dice size.
 	// Convert the control hull to raster space.
 	CqVector3D * avecHull = new CqVector3D[ m_cuVerts * m_cvVerts ];
-- 
2.43.0


From 4d687c1e38f46a1bdb4a4d17caed187e86800ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 087/118] fix: keep hermite and power basis patches
 non-rational

The unit weights of plain control points were put through the basis conversion,
which turned them into arbitrary weights for bases that are not affine.
---
 libs/core/geometry/patch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 5dcbd14..9b3bc91 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -460,6 +460,8 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 
 						// Store the data into a matrix for conversion.
 						CqMatrix matCPx, matCPy, matCPz, matCPh;
+						// Plain points stay plain points in any basis, even if its weights do not sum to one.
+						bool fRational = false;
 						for ( i = 0; i < 4; i++ )
 						{
 							for ( j = 0; j < 4; j++ )
@@ -468,6 +470,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								matCPy[ i ][ j ] = pParam->pValue( i*4 + j )[0][1];
 								matCPz[ i ][ j ] = pParam->pValue( i*4 + j )[0][2];
 								matCPh[ i ][ j ] = pParam->pValue( i*4 + j )[0][3];
+								fRational = fRational || matCPh[ i ][ j ] != 1.0f;
 							}
 						}
 						matCPx.SetfIdentity( false );
@@ -487,7 +490,7 @@ void CqSurfacePatchBicubic::ConvertToBezierBasis( CqMatrix& matuBasis, CqMatrix&
 								pParam->pValue( i*4 + j )[0][0] = matCPx[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][1] = matCPy[ i ][ j ];
 								pParam->pValue( i*4 + j )[0][2] = matCPz[ i ][ j ];
-								pParam->pValue( i*4 + j )[0][3] = matCPh[ i ][ j ];
+								pParam->pValue( i*4 + j )[0][3] = fRational ? matCPh[ i ][ j ] : 1.0f;
 							}
 						}
 					}
-- 
2.43.0


From c9b88c2b8c449ff62a5509ef9d505f6043956b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 088/118] fix: project all loops of a general polygon onto the
 same non-degenerate plane

Polygons with a 45 degree normal were projected edge-on, and holes could be
projected onto another plane than the outline.
---
 libs/core/api/genpoly.cpp | 4 ++--
 libs/core/api/ri.cpp      | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/core/api/genpoly.cpp b/libs/core/api/genpoly.cpp
index 0a93540..fa27f8a 100644
--- a/libs/core/api/genpoly.cpp
+++ b/libs/core/api/genpoly.cpp
@@ -80,9 +80,9 @@ void CqPolygonGeneral2D::CalcAxis()
 		++i;
 	}
 	// We want to project out the axis which has the maximum normal component.
-	if(normal.x() > normal.y() && normal.x() > normal.z())
+	if(normal.x() >= normal.y() && normal.x() >= normal.z())
 		SetAxis(Axis_YZ);
-	else if(normal.y() > normal.x() && normal.y() > normal.z())
+	else if(normal.y() >= normal.x() && normal.y() >= normal.z())
 		SetAxis(Axis_XZ);
 	else
 		SetAxis(Axis_XY);
diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 69c51a5..cf7bdbe 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -2430,8 +2430,11 @@ RtVoid RiCxxCore::PointsGeneralPolygons(const IntArray& nloops, const IntArray&
 					assert( ipoint < pPointsClass->P() ->Size() );
 					polya.aiVertices().push_back( ipoint );
 				}
-				// Work out which plane to project onto.
-				polya.CalcAxis();
+				// Work out which plane to project onto, the same one for all the loops.
+				if ( iloop == 0 )
+					polya.CalcAxis();
+				else
+					polya.SetAxis( poly.Axis() );
 
 				if ( iloop == 0 )
 				{
-- 
2.43.0


From e61a0a7898095ecb7e5a1e31815ecc98ff5baa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 089/118] fix: expand uniform and facevarying values of a
 GeneralPolygon to its triangles

The original values were passed on for the triangles, which need one value each,
and the projection plane could be edge-on to the polygon.
---
 libs/core/api/ri.cpp | 132 +++----------------------------------------
 1 file changed, 9 insertions(+), 123 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index cf7bdbe..d6a639f 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -1884,132 +1884,18 @@ RtVoid RiCxxCore::Polygon(const ParamList& pList)
 //
 RtVoid RiCxxCore::GeneralPolygon(const IntArray& nverts, const ParamList& pList)
 {
-	RtInt nloops = nverts.size();
-	TqInt iloop;
-
-	// Calcualte how many points there are.
+	// Do as for the equivalent PointsGeneralPolygons.
 	TqInt cVerts = 0;
-	for ( iloop = 0; iloop < nloops; ++iloop )
-	{
+	for ( TqUint iloop = 0; iloop < nverts.size(); ++iloop )
 		cVerts += nverts[ iloop ];
-		// Check for degenerate loops.
-		if( nverts[ iloop ] < 3 )
-		{
-			CqString objname( "unnamed" );
-			const CqString* pattrName = QGetRenderContext()->pattrCurrent()->GetStringAttribute( "identifier", "name" );
-			if ( pattrName != 0 )
-				objname = pattrName[ 0 ];
-			Aqsis::log() << warning << "Degenerate loop in GeneralPolygon object \"" << objname.c_str() << "\"" << std::endl;
-		}
-	}
-
-	// Create a storage class for all the points.
-	boost::shared_ptr<CqPolygonPoints> pPointsClass( new CqPolygonPoints( cVerts, 1, cVerts ) );
-	// Process any specified primitive variables
-	if ( ProcessPrimitiveVariables( pPointsClass.get(), pList ) )
-	{
-		pPointsClass->SetDefaultPrimitiveVariables( RI_FALSE );
-
-		// Work out which plane to project to.
-		TqFloat	MinX, MaxX;
-		TqFloat	MinY, MaxY;
-		TqFloat	MinZ, MaxZ;
-		CqVector3D vecTemp = vectorCast<CqVector3D>(pPointsClass->P()->pValue(0)[0]);
-		MinX = MaxX = vecTemp.x();
-		MinY = MaxY = vecTemp.y();
-		MinZ = MaxZ = vecTemp.z();
-
-		// We need to take into account Orientation here.
-		bool O = QGetRenderContext()->pattrCurrent() ->GetIntegerAttribute( "System", "Orientation" ) [ 0 ] != 0;
-
-		TqUint iVert;
-		for ( iVert = 1; iVert < pPointsClass->P() ->Size(); ++iVert )
-		{
-			vecTemp = vectorCast<CqVector3D>(pPointsClass->P()->pValue(iVert)[0]);
-			MinX = ( MinX < vecTemp.x() ) ? MinX : vecTemp.x();
-			MinY = ( MinY < vecTemp.y() ) ? MinY : vecTemp.y();
-			MinZ = ( MinZ < vecTemp.z() ) ? MinZ : vecTemp.z();
-			MaxX = ( MaxX > vecTemp.x() ) ? MaxX : vecTemp.x();
-			MaxY = ( MaxY > vecTemp.y() ) ? MaxY : vecTemp.y();
-			MaxZ = ( MaxZ > vecTemp.z() ) ? MaxZ : vecTemp.z();
-		}
-		TqFloat	DiffX = MaxX - MinX;
-		TqFloat	DiffY = MaxY - MinY;
-		TqFloat	DiffZ = MaxZ - MinZ;
-
-		TqInt Axis;
-		if ( DiffX < DiffY && DiffX < DiffZ )
-			Axis = CqPolygonGeneral2D::Axis_YZ;
-		else if ( DiffY < DiffX && DiffY < DiffZ )
-			Axis = CqPolygonGeneral2D::Axis_XZ;
-		else
-			Axis = CqPolygonGeneral2D::Axis_XY;
-
-		// Create a general 2D polygon using the points in each loop.
-		CqPolygonGeneral2D poly;
-		TqUint ipoint = 0;
-		for ( iloop = 0; iloop < nloops; ++iloop )
-		{
-			CqPolygonGeneral2D polya;
-			polya.SetAxis( Axis );
-			polya.SetpVertices( pPointsClass );
-			TqInt ivert;
-			for ( ivert = 0; ivert < nverts[ iloop ]; ++ivert )
-			{
-				assert( ipoint < pPointsClass->P() ->Size() );
-				polya.aiVertices().push_back( ipoint++ );
-			}
-			if ( iloop == 0 )
-			{
-				/// \note: We need to check here if the orientation of the projected poly matches the
-				/// expected one, of not, we must swap the direction so that the triangulation routines can
-				/// correctly determine the inside/outside nature of points. The triangles come out in the
-				/// original direction, so that normals are correctly calculated.
-				if( O )
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_AntiClockwise )
-					{
-						polya.SwapDirection();
-					}
-				}
-				else
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_Clockwise )
-					{
-						polya.SwapDirection();
-					}
-				}
-				poly = polya;
-			}
-			else
-			{
-				if( O )
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_Clockwise )
-						polya.SwapDirection();
-				}
-				else
-				{
-					if ( polya.CalcOrientation() != CqPolygonGeneral2D::Orientation_AntiClockwise )
-						polya.SwapDirection();
-				}
-				poly.Combine( polya );
-			}
-		}
-		// Now triangulate the general polygon
-
-		std::vector<TqInt>	aiTriangles;
-		poly.CalcOrientation();
-		poly.Triangulate( aiTriangles );
-
-		TqUint ctris = aiTriangles.size() / 3;
-		// Build an array of point counts (always 3 each).
-		std::vector<RtInt> _nverts;
-		_nverts.resize( ctris, 3 );
+	if ( cVerts == 0 )
+		return;
 
-		PointsPolygons(Ri::IntArray(&_nverts[0], _nverts.size()),
-					   Ri::IntArray(&aiTriangles[0], aiTriangles.size()), pList);
-	}
+	RtInt nloops = nverts.size();
+	std::vector<RtInt> verts( cVerts );
+	for ( TqInt ivert = 0; ivert < cVerts; ++ivert )
+		verts[ ivert ] = ivert;
+	PointsGeneralPolygons( IntArray( &nloops, 1 ), nverts, IntArray( &verts[0], verts.size() ), pList );
 }
 
 //----------------------------------------------------------------------
-- 
2.43.0


From 44acc52ae3592decd76be267c7edc23a5452d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 090/118] fix: do not abort on varying array primitive
 variables

The result of dicing has the size of the grid, not of the primitive's values.
---
 libs/core/parameters.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 2ee6730..64e7913 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -1457,7 +1457,6 @@ void CqParameterTypedVaryingArray<T, I, SLT>::Dice( TqInt u, TqInt v, IqShaderDa
 {
 	assert( pResult->Type() == this->Type() );
 	assert( pResult->Class() == class_varying );
-	assert( pResult->Size() == Size() );
 	assert( pResult->isArray() && pResult->ArrayLength() == this->ArrayLength() );
 
 	T res;
-- 
2.43.0


From 191dad400486b6043177cddd2584acd52650479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 091/118] fix: cut the edges of surfaces with trim curve sense
 "outside"

Micropolygons on the trim curve were never trimmed per sample with this sense.
---
 libs/core/micropolygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 137a302..436280d 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1623,7 +1623,7 @@ bool CqMicroPolygon::Sample( CqHitTestCache& hitTestCache, SqSampleData const& s
 
 			CqVector2D vR = BilinearEvaluate( uvA, uvB, uvC, uvD, uv.x(), uv.y() );
 
-			if ( pGrid() ->pSurface() ->bCanBeTrimmed() && pGrid() ->pSurface() ->bIsPointTrimmed( vR ) && !bOutside )
+			if ( pGrid() ->pSurface() ->bCanBeTrimmed() && pGrid() ->pSurface() ->bIsPointTrimmed( vR ) != bOutside )
 			{
 				STATS_INC( MPG_trimmed );
 				return ( false );
-- 
2.43.0


From 2314073c5437010c7bb19aa18bfdf078893cfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:09 +0000
Subject: [PATCH 092/118] fix: copy all elements of constant and uniform array
 primitive variables

Only the first element reached polygons and the patches of a mesh.
---
 libs/core/parameters.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/core/parameters.h b/libs/core/parameters.h
index 64e7913..91f158c 100644
--- a/libs/core/parameters.h
+++ b/libs/core/parameters.h
@@ -208,7 +208,11 @@ class CqParameterTyped : public CqParameter
 			assert( pFrom->Type() == this->Type() );
 
 			const CqParameterTyped<T, SLT>* pFromTyped = static_cast<const CqParameterTyped<T, SLT>*>( pFrom );
-			*pValue( idxTarget ) = *pFromTyped->pValue( idxSource );
+			assert( pFrom->Count() == this->Count() );
+			T* pTargetValues = pValue( idxTarget );
+			const T* pSourceValues = pFromTyped->pValue( idxSource );
+			for ( TqInt index = 0; index < this->Count(); ++index )
+				pTargetValues[ index ] = pSourceValues[ index ];
 		}
 
 	protected:
-- 
2.43.0


From 6e3891e03adf86777192af1d0a7046c14ef82098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:09 +0000
Subject: [PATCH 093/118] fix: leave constant primitive variables alone when
 splitting subdivision faces

They have no value per vertex to average.
---
 libs/core/geometry/subdivision2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/geometry/subdivision2.cpp b/libs/core/geometry/subdivision2.cpp
index 62f2501..2b2f00d 100644
--- a/libs/core/geometry/subdivision2.cpp
+++ b/libs/core/geometry/subdivision2.cpp
@@ -1088,7 +1088,7 @@ void CqSubdivision2::AddFaceVertex(CqLath* pVertex, TqInt& iVIndex, TqInt& iFVIn
 	{
 		for ( iUP = pPoints( iTime )->aUserParams().begin(); iUP != pPoints( iTime )->aUserParams().end(); iUP++ )
 		{
-			if( ( *iUP )->Class() == class_uniform )
+			if( ( *iUP )->Class() == class_uniform || ( *iUP )->Class() == class_constant )
 				continue;
 
 			TqInt iIndex = ( *iUP )->Size();
-- 
2.43.0


From 64bf8fd557273065aea452c976e741df3f3669a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:09 +0000
Subject: [PATCH 094/118] fix: keep the array length of NURBS primitive
 variables when refining

---
 libs/core/geometry/nurbs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/nurbs.cpp b/libs/core/geometry/nurbs.cpp
index e952f67..0b53e28 100644
--- a/libs/core/geometry/nurbs.cpp
+++ b/libs/core/geometry/nurbs.cpp
@@ -441,7 +441,7 @@ TqUint CqSurfaceNURBS::InsertKnotU( TqFloat u, TqInt r )
 			( *iUP ) ->SetSize( m_cuVerts * m_cvVerts );
 
 			// Save unaltered control points
-			CqParameter* R = ( *iUP ) ->CloneType( "R" );
+			CqParameter* R = ( *iUP ) ->CloneType( "R", ( *iUP ) ->Count() );
 			R->SetSize( p + 1 );
 
 			// Insert control points as required on each row.
@@ -621,7 +621,7 @@ TqUint CqSurfaceNURBS::InsertKnotV( TqFloat v, TqInt r )
 			( *iUP ) ->SetSize( m_cuVerts * m_cvVerts );
 
 			// Save unaltered control points
-			CqParameter* R = ( *iUP ) ->CloneType( "R" );
+			CqParameter* R = ( *iUP ) ->CloneType( "R", ( *iUP ) ->Count() );
 			R->SetSize( p + 1 );
 
 			// Insert control points as required on each row.
-- 
2.43.0


From cbd995eeb9eb2d203041c57f2f40fd89e24c0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:12 +0000
Subject: [PATCH 095/118] fix: transform point, vector and normal primitive
 variables of quadrics

They reached shaders as if given in camera space.
---
 libs/core/geometry/quadrics.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 27d3345..82c1876 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -72,6 +72,8 @@ void	CqQuadric::Transform( const CqMatrix& matTx, const CqMatrix& matITTx, const
 {
 	m_matTx.PreMultiply(matTx);
 	m_matITTx.PreMultiply(matITTx);
+	// Transform the point, vector and normal primitive variables.
+	CqSurface::Transform( matTx, matITTx, matRTx, iTime );
 }
 
 
-- 
2.43.0


From 9291e6bd37f9a0e57a5ea1b9b86274f28538a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:08 +0000
Subject: [PATCH 096/118] fix: give each row of a patch mesh its own uniform
 primitive variables

All rows used the values of the first one.
---
 libs/core/geometry/patch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/patch.cpp b/libs/core/geometry/patch.cpp
index 9b3bc91..285f3a3 100644
--- a/libs/core/geometry/patch.cpp
+++ b/libs/core/geometry/patch.cpp
@@ -1056,7 +1056,7 @@ void CqSurfacePatchMeshBicubic::SplitInternally()
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
@@ -1271,7 +1271,7 @@ TqInt CqSurfacePatchMeshBilinear::Split( std::vector<boost::shared_ptr<CqSurface
 					// Copy any 'uniform' class primitive variables.
 					CqParameter * pNewUP = ( *iUP ) ->CloneType( ( *iUP ) ->strName().c_str(), ( *iUP ) ->Count() );
 					pNewUP->SetSize( pSurface->cUniform() );
-					pNewUP->SetValue( ( *iUP ), 0, j );
+					pNewUP->SetValue( ( *iUP ), 0, i * m_uPatches + j );
 					pSurface->AddPrimitiveVariable( pNewUP );
 				}
 				else if ( ( *iUP ) ->Class() == class_constant )
-- 
2.43.0


From a9a9e89837284913ebe5689139ae1545f6b0fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:49 +0000
Subject: [PATCH 097/118] fix: apply constant and uniform s, t, Cs and Os on
 subdivision surfaces

Constant values were ignored, and uniform ones taken from the first face.
---
 libs/core/geometry/subdivision2.cpp | 47 ++++++++++++++---------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/libs/core/geometry/subdivision2.cpp b/libs/core/geometry/subdivision2.cpp
index 2b2f00d..fed2605 100644
--- a/libs/core/geometry/subdivision2.cpp
+++ b/libs/core/geometry/subdivision2.cpp
@@ -2080,6 +2080,25 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 }
 
 
+/** Get the index of the value of a primitive variable of the given class.
+ */
+static TqInt valueIndex( EqVariableClass varClass, TqInt iVertex, TqInt iFaceVertex, TqInt iFace )
+{
+	switch ( varClass )
+	{
+		case class_varying:
+		case class_vertex:
+			return iVertex;
+		case class_facevarying:
+		case class_facevertex:
+			return iFaceVertex;
+		case class_uniform:
+			return iFace;
+		default:
+			return 0;
+	}
+}
+
 void CqSurfaceSubdivisionPatch::StoreDice( CqMicroPolyGrid* pGrid, const boost::shared_ptr<CqPolygonPoints>& pPoints, CqLath* vert, TqInt iData)
 {
 	TqInt lUses = m_Uses;
@@ -2108,42 +2127,22 @@ void CqSurfaceSubdivisionPatch::StoreDice( CqMicroPolyGrid* pGrid, const boost::
 
 	if ( USES( lUses, EnvVars_s ) && ( NULL != pGrid->pVar(EnvVars_s) ) && ( pPoints->bHasVar(EnvVars_s) ) && !isDONE(lDone, EnvVars_s ) )
 	{
-		if( pPoints->s()->Class() == class_varying || pPoints->s()->Class() == class_vertex )
-			pGrid->pVar(EnvVars_s) ->SetFloat( pPoints->s()->pValue( iParam )[0], iData );
-		else if( pPoints->s()->Class() == class_facevarying || pPoints->s()->Class() == class_facevertex )
-			pGrid->pVar(EnvVars_s) ->SetFloat( pPoints->s()->pValue( iFVParam )[0], iData );
-		else if( pPoints->s()->Class() == class_uniform )
-			pGrid->pVar(EnvVars_s) ->SetFloat( pPoints->s()->pValue( 0 )[0], iData );
+		pGrid->pVar(EnvVars_s) ->SetFloat( pPoints->s()->pValue( valueIndex( pPoints->s()->Class(), iParam, iFVParam, m_FaceIndex ) )[0], iData );
 	}
 
 	if ( USES( lUses, EnvVars_t ) && ( NULL != pGrid->pVar(EnvVars_t) ) && ( pPoints->bHasVar(EnvVars_t) ) && !isDONE(lDone, EnvVars_t ) )
 	{
-		if( pPoints->t()->Class() == class_varying || pPoints->t()->Class() == class_vertex )
-			pGrid->pVar(EnvVars_t) ->SetFloat( pPoints->t()->pValue( iParam )[0], iData );
-		else if( pPoints->t()->Class() == class_facevarying || pPoints->t()->Class() == class_facevertex )
-			pGrid->pVar(EnvVars_t) ->SetFloat( pPoints->t()->pValue( iFVParam )[0], iData );
-		else if( pPoints->t()->Class() == class_uniform )
-			pGrid->pVar(EnvVars_t) ->SetFloat( pPoints->t()->pValue( 0 )[0], iData );
+		pGrid->pVar(EnvVars_t) ->SetFloat( pPoints->t()->pValue( valueIndex( pPoints->t()->Class(), iParam, iFVParam, m_FaceIndex ) )[0], iData );
 	}
 
 	if ( USES( lUses, EnvVars_Cs ) && ( pGrid->pVar(EnvVars_Cs) ) && ( pPoints->bHasVar(EnvVars_Cs) ) )
 	{
-		if( pPoints->Cs()->Class() == class_varying || pPoints->Cs()->Class() == class_vertex )
-			pGrid->pVar(EnvVars_Cs) ->SetColor( pPoints->Cs()->pValue(iParam)[0], iData );
-		else if( pPoints->Cs()->Class() == class_facevarying || pPoints->Cs()->Class() == class_facevertex )
-			pGrid->pVar(EnvVars_Cs) ->SetColor( pPoints->Cs()->pValue(iFVParam)[0], iData );
-		else if( pPoints->Cs()->Class() == class_uniform )
-			pGrid->pVar(EnvVars_Cs) ->SetColor( pPoints->Cs()->pValue(0)[0], iData );
+		pGrid->pVar(EnvVars_Cs) ->SetColor( pPoints->Cs()->pValue( valueIndex( pPoints->Cs()->Class(), iParam, iFVParam, m_FaceIndex ) )[0], iData );
 	}
 
 	if ( USES( lUses, EnvVars_Os ) && ( pGrid->pVar(EnvVars_Os) ) && ( pPoints->bHasVar(EnvVars_Os) ) )
 	{
-		if( pPoints->Os()->Class() == class_varying || pPoints->Os()->Class() == class_vertex )
-			pGrid->pVar(EnvVars_Os) ->SetColor( pPoints->Os()->pValue(iParam)[0], iData );
-		else if( pPoints->Os()->Class() == class_facevarying || pPoints->Os()->Class() == class_facevertex )
-			pGrid->pVar(EnvVars_Os) ->SetColor( pPoints->Os()->pValue(iFVParam)[0], iData );
-		else if( pPoints->Os()->Class() == class_uniform )
-			pGrid->pVar(EnvVars_Os) ->SetColor( pPoints->Os()->pValue(0)[0], iData );
+		pGrid->pVar(EnvVars_Os) ->SetColor( pPoints->Os()->pValue( valueIndex( pPoints->Os()->Class(), iParam, iFVParam, m_FaceIndex ) )[0], iData );
 	}
 
 	// Now lets store the diced user specified primitive variables.
-- 
2.43.0


From 027e3d6856d43e4bc89538a02f9dde5329005a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:13 +0000
Subject: [PATCH 098/118] fix: store array primitive variables of subdivision
 surfaces

Setting the array as if it were a single value aborted the render.
---
 libs/core/geometry/subdivision2.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/libs/core/geometry/subdivision2.cpp b/libs/core/geometry/subdivision2.cpp
index fed2605..ad9bff5 100644
--- a/libs/core/geometry/subdivision2.cpp
+++ b/libs/core/geometry/subdivision2.cpp
@@ -1988,6 +1988,20 @@ CqMicroPolyGridBase* CqSurfaceSubdivisionPatch::DiceExtract()
 	}
 }
 
+/** Store one value of a primitive variable, with all its array elements.
+ */
+template<class T>
+static void storeValue( IqShaderData* pArg, const T* pValue, TqInt count, TqUint index )
+{
+	if ( pArg->isArray() )
+	{
+		for ( TqInt i = 0, end = min( count, pArg->ArrayLength() ); i < end; ++i )
+			pArg->ArrayEntry( i )->SetValue( pValue[ i ], index );
+	}
+	else
+		pArg->SetValue( *pValue, index );
+}
+
 void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 		const boost::shared_ptr<IqShader>& pShader, CqParameter* pParam,
 		TqUint ivA, TqInt ifvA, TqUint indexA)
@@ -2022,14 +2036,14 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 				case type_float:
 				{
 					CqParameterTyped<TqFloat, TqFloat>* pNParam = static_cast<CqParameterTyped<TqFloat, TqFloat>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
 				case type_integer:
 				{
 					CqParameterTyped<TqInt, TqFloat>* pNParam = static_cast<CqParameterTyped<TqInt, TqFloat>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
@@ -2038,7 +2052,7 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 				case type_normal:
 				{
 					CqParameterTyped<CqVector3D, CqVector3D>* pNParam = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
@@ -2052,21 +2066,21 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 				case type_string:
 				{
 					CqParameterTyped<CqString, CqString>* pNParam = static_cast<CqParameterTyped<CqString, CqString>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
 				case type_color:
 				{
 					CqParameterTyped<CqColor, CqColor>* pNParam = static_cast<CqParameterTyped<CqColor, CqColor>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
 				case type_matrix:
 				{
 					CqParameterTyped<CqMatrix, CqMatrix>* pNParam = static_cast<CqParameterTyped<CqMatrix, CqMatrix>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					storeValue( pArg, pNParam->pValue( index ), pParam->Count(), indexA );
 				}
 				break;
 
-- 
2.43.0


From f810f64ebfb9536644591819f34532ac223b3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:20 +0000
Subject: [PATCH 099/118] fix: use the one value of constant and uniform Cs,
 Os, s and t for all points

Values beyond the end of the array were read for all points but the first.
---
 libs/core/geometry/points.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/points.cpp b/libs/core/geometry/points.cpp
index b9a4ff6..a3c0b1f 100644
--- a/libs/core/geometry/points.cpp
+++ b/libs/core/geometry/points.cpp
@@ -274,12 +274,14 @@ void pointsNaturalDice(CqParameter* pParam, const std::vector<TqInt>& paramIdx,
 
 	CqParameterTyped<T, SLT>* pTParam = static_cast<CqParameterTyped<T, SLT>*>(pParam);
 	const T* src = pTParam->pValue();
+	// There is one value for all the points of constant and uniform parameters.
+	const bool single = pParam->Class() == class_constant || pParam->Class() == class_uniform;
 	for(TqInt j = 0, arraySize = pTParam->Count(); j < arraySize; j++)
 	{
 		SLT* dest = 0;
 		pData->ArrayEntry(j)->GetValuePtr(dest);
 		for(TqInt i = 0; i < diceSize; i++ )
-			dest[i] = paramToShaderType<SLT,T>( src[arraySize*paramIdx[i] + j] );
+			dest[i] = paramToShaderType<SLT,T>( src[single ? j : arraySize*paramIdx[i] + j] );
 	}
 }
 
-- 
2.43.0


From 4559a97b5d284affe5c2502010ef6dc89bba89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:11 +0000
Subject: [PATCH 100/118] fix: accept constant and uniform s and t on quadrics

Four values were read from the single one.
---
 libs/core/geometry/quadrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/core/geometry/quadrics.cpp b/libs/core/geometry/quadrics.cpp
index 82c1876..f28ad0d 100644
--- a/libs/core/geometry/quadrics.cpp
+++ b/libs/core/geometry/quadrics.cpp
@@ -101,7 +101,7 @@ TqInt CqQuadric::DiceAll( CqMicroPolyGrid* pGrid )
 	TqFloat s1 = 0;
 	TqFloat s2 = 0;
 	TqFloat s3 = 0;
-	if( USES( lUses, EnvVars_s ) && NULL != pGrid->pVar(EnvVars_s) && bHasVar(EnvVars_s) )
+	if( USES( lUses, EnvVars_s ) && NULL != pGrid->pVar(EnvVars_s) && bHasVar(EnvVars_s) && ( pst ? pst : ps )->Size() >= 4 )
 	{
 		if( pst )
 		{
@@ -125,7 +125,7 @@ TqInt CqQuadric::DiceAll( CqMicroPolyGrid* pGrid )
 	TqFloat t1 = 0;
 	TqFloat t2 = 0;
 	TqFloat t3 = 0;
-	if( USES( lUses, EnvVars_t ) && NULL != pGrid->pVar(EnvVars_t) && bHasVar(EnvVars_t) )
+	if( USES( lUses, EnvVars_t ) && NULL != pGrid->pVar(EnvVars_t) && bHasVar(EnvVars_t) && ( pst ? pst : pt )->Size() >= 4 )
 	{
 		if( pst )
 		{
-- 
2.43.0


From 54e511579c95e7fa433522069f6eece3b1e730ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:09 +0000
Subject: [PATCH 101/118] fix: a shader which fails to compile does not disturb
 those compiled after it

---
 libs/slcomp/parse/libslparse.cpp |  5 +++++
 libs/slcomp/parse/parser.yy      | 10 ++++++++++
 libs/slcomp/parse/scanner.ll     |  7 +++++++
 3 files changed, 22 insertions(+)

diff --git a/libs/slcomp/parse/libslparse.cpp b/libs/slcomp/parse/libslparse.cpp
index 6ee9616..5984bf8 100644
--- a/libs/slcomp/parse/libslparse.cpp
+++ b/libs/slcomp/parse/libslparse.cpp
@@ -43,6 +43,8 @@ extern CqParseNode* ParseTreePointer;
 extern void TypeCheck();
 extern void Optimise();
 extern void InitStandardNamespace();
+extern void ResetScanner();
+extern void ResetParserState();
 
 
 std::istream* ParseInputStream = &std::cin;
@@ -103,6 +105,9 @@ void ResetParser()
 	gLocalFuncs.clear();
 	for(TqInt i = 0; i < EnvVars_Last; ++i)
 		gStandardVars[i].ResetUseCount();
+	// A previous parse may have been abandoned part way through.
+	ResetScanner();
+	ResetParserState();
 }
 
 
diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index e1e0ff2..bf1be3d 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -2190,6 +2190,16 @@ void InitStandardNamespace()
 	ParseNameSpaceStack.push_back(n);
 }
 
+// Forget the scopes and functions which an abandoned parse left open.
+void ResetParserState()
+{
+	ParseTreePointer = 0;
+	ParseNameSpaceStack.clear();
+	scopeID = 0;
+	functionReturnCountStack = std::stack<TqInt>();
+	currentFunctionStack = std::stack<CqParseNodeDeclaration*>();
+}
+
 void ProcessShaderArguments( CqParseNode* pArgs )
 {
 	if(pArgs)
diff --git a/libs/slcomp/parse/scanner.ll b/libs/slcomp/parse/scanner.ll
index 78f9df9..f5a047a 100644
--- a/libs/slcomp/parse/scanner.ll
+++ b/libs/slcomp/parse/scanner.ll
@@ -33,6 +33,7 @@ extern TqInt ParseLineNumber;
 extern bool	FindVariable(const char* name, SqVarRef& ref);
 extern bool	FindFunction(const char* name, std::vector<SqFuncRef>& Ref);
 extern CqString strNameSpace();
+void ResetScanner();
 
 extern std::vector<std::pair<bool,CqString> >	ParseNameSpaceStack;
 }
@@ -194,6 +195,12 @@ TqInt yywrap()
 	return(1);
 }
 
+// Forget any input left over from a previous (possibly abandoned) parse.
+void Aqsis::ResetScanner()
+{
+	YY_FLUSH_BUFFER;
+}
+
 
 TqInt check_type()
 {
-- 
2.43.0


From 958b3243d44bd778023ba65a45ba8e8e58a7c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 102/118] fix: aqsl reports failure when a file cannot be read
 or preprocessed

---
 tools/aqsl/aqsl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/aqsl/aqsl.cpp b/tools/aqsl/aqsl.cpp
index a67b06d..480371f 100644
--- a/tools/aqsl/aqsl.cpp
+++ b/tools/aqsl/aqsl.cpp
@@ -191,6 +191,7 @@ int main( int argc, const char** argv )
 					if (!instream.is_open()) 
 					{
 						std::cerr << "Could not open input file: " << *it << std::endl;
+						error = true;
 						continue;
 					}
 					instream.unsetf(std::ios::skipws);
@@ -282,6 +283,7 @@ int main( int argc, const char** argv )
 					Aqsis::log() 
 					<< e.file_name() << "(" << e.line_no() << "): "
 					<< e.description() << std::endl;
+					error = true;
 					continue;
 				}
 				catch (std::exception &e)
@@ -291,6 +293,7 @@ int main( int argc, const char** argv )
 				        << "(" << current_position.get_line() << "): "
 				        << "exception caught: " << e.what()
 				        << std::endl;
+					error = true;
 					continue;
 				}
 				catch (...) {
@@ -298,6 +301,7 @@ int main( int argc, const char** argv )
 					Aqsis::log() << current_position.get_file()
 					<< "(" << current_position.get_line() << "): "
 					<< "unexpected exception caught." << std::endl;
+					error = true;
 					continue;
 				}
 			}
-- 
2.43.0


From b0ffd37cc6658ae4b24e1e36a9125b940125010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:49 +0000
Subject: [PATCH 103/118] fix: the name of a function used as a variable is an
 error rather than a crash

---
 libs/slcomp/parse/parser.yy | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index bf1be3d..462320f 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -63,6 +63,7 @@ void	InitStandardNamespace();
 void	ProcessShaderArguments( CqParseNode* pArgs );
 
 void Error(const CqString& message, TqInt lineNumber);
+const SqVarRef& VariableRef(TqInt symbolType, const SqVarRef& ref);
 
 }
 
@@ -1549,15 +1550,15 @@ primary
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
 	|	SYMBOL				{
-								$$=new CqParseNodeVariable($1.VarRef);	
+								$$=new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef));	
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
 	|	ARRAY_SYMBOL		{
-								$$=new CqParseNodeVariable($1.VarRef);	
+								$$=new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef));	
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
 	|	ARRAY_SYMBOL '[' expression ']' {
-								$$=new CqParseNodeVariableArray($1.VarRef);
+								$$=new CqParseNodeVariableArray(VariableRef($1.eType, $1.VarRef));
 								$$->AddLastChild($3);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
@@ -1647,83 +1648,83 @@ relation
 assignexpression
 	:	SYMBOL '=' expression
 							{
-								$$=new CqParseNodeAssign($1.VarRef);
+								$$=new CqParseNodeAssign(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								$$->AddLastChild($3);
 							}
 	|	SYMBOL ADD_ASSIGN expression
 							{
-								$$=new CqParseNodeAssign($1.VarRef);
+								$$=new CqParseNodeAssign(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator+", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								pFunc->AddLastChild(new CqParseNodeVariable($1.VarRef));
+								pFunc->AddLastChild(new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef)));
 								pFunc->AddLastChild($3);
 
 								$$->AddLastChild(pFunc);
 							}
 	|	SYMBOL SUB_ASSIGN expression
 							{
-								$$=new CqParseNodeAssign($1.VarRef);
+								$$=new CqParseNodeAssign(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator-", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								pFunc->AddLastChild(new CqParseNodeVariable($1.VarRef));
+								pFunc->AddLastChild(new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef)));
 								pFunc->AddLastChild($3);
 
 								$$->AddLastChild(pFunc);
 							}
 	|	SYMBOL MUL_ASSIGN expression
 							{
-								$$=new CqParseNodeAssign($1.VarRef);
+								$$=new CqParseNodeAssign(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator*", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								pFunc->AddLastChild(new CqParseNodeVariable($1.VarRef));
+								pFunc->AddLastChild(new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef)));
 								pFunc->AddLastChild($3);
 
 								$$->AddLastChild(pFunc);
 							}
 	|	SYMBOL DIV_ASSIGN expression
 							{
-								$$=new CqParseNodeAssign($1.VarRef);
+								$$=new CqParseNodeAssign(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator/", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								pFunc->AddLastChild(new CqParseNodeVariable($1.VarRef));
+								pFunc->AddLastChild(new CqParseNodeVariable(VariableRef($1.eType, $1.VarRef)));
 								pFunc->AddLastChild($3);
 
 								$$->AddLastChild(pFunc);
 							}
 	|	ARRAY_SYMBOL '[' expression ']' '=' expression
 							{
-								$$=new CqParseNodeAssignArray($1.VarRef);
+								$$=new CqParseNodeAssignArray(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								$$->AddLastChild($6);
 								$$->AddLastChild($3);
 							}
 	|	ARRAY_SYMBOL  '[' expression ']' ADD_ASSIGN expression
 							{
-								$$=new CqParseNodeAssignArray($1.VarRef);
+								$$=new CqParseNodeAssignArray(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator+", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray($1.VarRef);
+								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray(VariableRef($1.eType, $1.VarRef));
 								pVar->AddLastChild($3->Clone());
 								pFunc->AddLastChild(pVar);
 
@@ -1734,14 +1735,14 @@ assignexpression
 							}
 	|	ARRAY_SYMBOL  '[' expression ']' SUB_ASSIGN expression
 							{
-								$$=new CqParseNodeAssignArray($1.VarRef);
+								$$=new CqParseNodeAssignArray(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator-", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray($1.VarRef);
+								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray(VariableRef($1.eType, $1.VarRef));
 								pVar->AddLastChild($3->Clone());
 								pFunc->AddLastChild(pVar);
 
@@ -1752,14 +1753,14 @@ assignexpression
 							}
 	|	ARRAY_SYMBOL  '[' expression ']' MUL_ASSIGN expression
 							{
-								$$=new CqParseNodeAssignArray($1.VarRef);
+								$$=new CqParseNodeAssignArray(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator*", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray($1.VarRef);
+								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray(VariableRef($1.eType, $1.VarRef));
 								pVar->AddLastChild($3->Clone());
 								pFunc->AddLastChild(pVar);
 
@@ -1770,14 +1771,14 @@ assignexpression
 							}
 	|	ARRAY_SYMBOL  '[' expression ']' DIV_ASSIGN expression
 							{
-								$$=new CqParseNodeAssignArray($1.VarRef);
+								$$=new CqParseNodeAssignArray(VariableRef($1.eType, $1.VarRef));
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction("operator/", func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
 								pFunc->SetPos(ParseLineNumber,ParseStreamName.c_str());
-								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray($1.VarRef);
+								CqParseNodeVariableArray* pVar=new CqParseNodeVariableArray(VariableRef($1.eType, $1.VarRef));
 								pVar->AddLastChild($3->Clone());
 								pFunc->AddLastChild(pVar);
 
@@ -2248,6 +2249,14 @@ void Error(const CqString& message, TqInt lineNumber)
 		ParseStreamName.c_str() << " : " << lineNumber << " : " << message.c_str());
 }
 
+// Check that a symbol which is used as a variable is one, rather than the name of a function.
+const SqVarRef& VariableRef(TqInt symbolType, const SqVarRef& ref)
+{
+	if(!(symbolType & 1))
+		Error("Function name used as a variable", ParseLineNumber);
+	return ref;
+}
+
 } // End Namespace
 
 static void yyerror(const CqString& message)
-- 
2.43.0


From c1dcb6dc581eb2522e2443318c06179e0419736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 104/118] fix: illuminate and illuminance cones do not depend
 on the length of their axis

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index 68118f2..ac65044 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -830,6 +830,7 @@ void CqShaderExecEnv::SO_illuminance( IqShaderData* Category, IqShaderData* P, I
 					CqVector3D vecAxis( 0, 1, 0 );
 					if ( NULL != Axis )
 						Axis->GetVector( vecAxis, __iGrid );
+					vecAxis.Unit();
 					TqFloat fAngle = M_PI;
 					if ( NULL != Angle )
 						Angle->GetFloat( fAngle, __iGrid );
@@ -889,6 +890,7 @@ void CqShaderExecEnv::SO_illuminate( IqShaderData* P, IqShaderData* Axis, IqShad
 				CqVector3D vecAxis( 0.0f, 1.0f, 0.0f );
 				if ( NULL != Axis )
 					Axis->GetVector( vecAxis, __iGrid );
+				vecAxis.Unit();
 				TqFloat fAngle = M_PI;
 				if ( NULL != Angle )
 					Angle->GetFloat( fAngle, __iGrid );
-- 
2.43.0


From 2e67bc1d1a20823c715f5e5c39d8b0209becead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 105/118] fix: match every light category of a list, and
 negated categories

---
 libs/shadervm/shaderexecenv/shadeops_illum.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_illum.cpp b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
index ac65044..8dee8cd 100644
--- a/libs/shadervm/shaderexecenv/shadeops_illum.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_illum.cpp
@@ -783,20 +783,18 @@ void CqShaderExecEnv::SO_illuminance( IqShaderData* Category, IqShaderData* P, I
 			{
 				pcats->GetString( lightcategories );
 
-				exec = false;
+				exec = exclude;
 				// While no matching category has been found...
 				CqString::size_type tokenpos = 0, tokenend;
 				while( 1 )
 				{
 					tokenend = lightcategories.find(',', tokenpos);
-					CqString token = lightcategories.substr( tokenpos, tokenend );
+					CqString token = lightcategories.substr( tokenpos,
+							tokenend == std::string::npos ? tokenend : tokenend - tokenpos );
 					if( catname.compare( token ) == 0 )
 					{
-						if( !exclude )
-						{
-							exec = true;
-							break;
-						}
+						exec = !exclude;
+						break;
 					}
 					if( tokenend == std::string::npos )
 						break;
-- 
2.43.0


From f5e3fdc1a9510c37dd4dec68a830829fe036351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 106/118] fix: build a kd-tree of many coincident points

---
 tools/procedurals/hairgen/kdtree/kdtree2.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/procedurals/hairgen/kdtree/kdtree2.cpp b/tools/procedurals/hairgen/kdtree/kdtree2.cpp
index 0218f7c..b96b06e 100644
--- a/tools/procedurals/hairgen/kdtree/kdtree2.cpp
+++ b/tools/procedurals/hairgen/kdtree/kdtree2.cpp
@@ -166,6 +166,16 @@ kdtree2_node* kdtree2::build_tree_for_range(int l, int u, kdtree2_node* parent)
       }
     }
 
+    if (c < 0) {
+      // all the points coincide, so there's nothing to cut: a terminal node.
+      node->cut_dim = 0; 
+      node->cut_val = 0.0;
+      node->l = l;
+      node->u = u;
+      node->left = node->right = NULL;
+      return(node);
+    }
+
     // 
     // now, c is the identity of which coordinate has the greatest spread
     //
-- 
2.43.0


From 971f60253673534aee3e1fa8775401d49023736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 107/118] fix: area of a quadrilateral emitter face

---
 tools/procedurals/hairgen/emitter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/procedurals/hairgen/emitter.cpp b/tools/procedurals/hairgen/emitter.cpp
index 825bd84..5f2405f 100644
--- a/tools/procedurals/hairgen/emitter.cpp
+++ b/tools/procedurals/hairgen/emitter.cpp
@@ -213,8 +213,11 @@ float EmitterMesh::triangleArea(const int* v) const
 float EmitterMesh::faceArea(const MeshFace& face) const
 {
 	float area = 0;
-	for(int i = 3; i <= face.numVerts; ++i)
-		area += triangleArea(&face.v[0] + i-3);
+	for(int i = 2; i < face.numVerts; ++i)
+	{
+		const int triangle[] = {face.v[0], face.v[i-1], face.v[i]};
+		area += triangleArea(triangle);
+	}
 	return area;
 }
 
-- 
2.43.0


From b75f035a93e4a9a2a64754dfc0d25aed0fd68839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 108/118] fix: refuse malformed emitter meshes and guide hairs
 instead of reading out of bounds

---
 tools/procedurals/hairgen/emitter.cpp     | 42 +++++++++++++++++++++--
 tools/procedurals/hairgen/emitter.h       |  2 ++
 tools/procedurals/hairgen/hair.cpp        |  5 +++
 tools/procedurals/hairgen/parenthairs.cpp |  4 +++
 4 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/tools/procedurals/hairgen/emitter.cpp b/tools/procedurals/hairgen/emitter.cpp
index 5f2405f..c24cced 100644
--- a/tools/procedurals/hairgen/emitter.cpp
+++ b/tools/procedurals/hairgen/emitter.cpp
@@ -55,6 +55,7 @@ EmitterMesh::EmitterMesh(
 	// Finally, create the list of faces
 	// TODO: Ugly, since it uses m_P internally!
 	createFaceList(nverts, verts, m_faces);
+	checkPrimVarSizes();
 }
 
 int EmitterMesh::numFaces() const
@@ -247,9 +248,13 @@ void EmitterMesh::createFaceList(const Ri::IntArray& nverts,
 	for(int i = 0; i < sizeNVerts; ++i)
 	{
 		if(nverts[i] != 3 && nverts[i] != 4)
+			throw std::runtime_error("emitter mesh can only deal with 3 and 4-sided faces");
+		if(totVerts + nverts[i] > static_cast<int>(verts.size()))
+			throw std::runtime_error("not enough vertex indices for the faces of the emitter mesh");
+		for(int j = 0; j < nverts[i]; ++j)
 		{
-			assert(0 && "emitter mesh can only deal with 3 and 4-sided faces");
-			continue;
+			if(verts[faceStart+j] < 0 || verts[faceStart+j] >= static_cast<int>(m_P.size()))
+				throw std::runtime_error("vertex index out of range in emitter mesh");
 		}
 		faces.push_back(MeshFace(&verts[0]+faceStart, totVerts, nverts[i]));
 		faceStart += nverts[i];
@@ -260,8 +265,41 @@ void EmitterMesh::createFaceList(const Ri::IntArray& nverts,
 		totVerts += nverts[i];
 	}
 	// normalized areas so that total area = 1.
+	if(!(totWeight > 0))
+		throw std::runtime_error("emitter mesh has no area");
 	float scale = 1/totWeight;
 	for(int i = 0; i < sizeNVerts; ++i)
 		faces[i].weight *= scale;
 }
 
+// Check that the primitive variables hold as many values as the mesh needs.
+void EmitterMesh::checkPrimVarSizes() const
+{
+	int numCorners = 0;
+	for(FaceVec::const_iterator f = m_faces.begin(); f != m_faces.end(); ++f)
+		numCorners += f->numVerts;
+	for(PrimVars::const_iterator i = m_primVars->begin(), end = m_primVars->end();
+			i != end; ++i)
+	{
+		size_t numValues = 1;
+		switch(i->token.Class())
+		{
+			case Aqsis::class_uniform:
+				numValues = m_faces.size();
+				break;
+			case Aqsis::class_varying:
+			case Aqsis::class_vertex:
+				numValues = m_P.size();
+				break;
+			case Aqsis::class_facevarying:
+			case Aqsis::class_facevertex:
+				numValues = numCorners;
+				break;
+			default:
+				break;
+		}
+		if(i->value->size() < numValues*i->token.storageCount())
+			throw std::runtime_error("not enough values for \"" + i->token.name()
+					+ "\" on the emitter mesh");
+	}
+}
diff --git a/tools/procedurals/hairgen/emitter.h b/tools/procedurals/hairgen/emitter.h
index e8bac3a..d07db84 100644
--- a/tools/procedurals/hairgen/emitter.h
+++ b/tools/procedurals/hairgen/emitter.h
@@ -90,6 +90,8 @@ class EmitterMesh
 		Vec3 faceNormal(const MeshFace& face) const;
 		void createFaceList(const Ri::IntArray& nverts,
 				const Ri::IntArray& verts, FaceVec& faces) const;
+		/// Check that the primitive variables hold as many values as needed.
+		void checkPrimVarSizes() const;
 
 		/// Array of faces.
 		FaceVec m_faces;
diff --git a/tools/procedurals/hairgen/hair.cpp b/tools/procedurals/hairgen/hair.cpp
index 6e3c8bf..8db9027 100644
--- a/tools/procedurals/hairgen/hair.cpp
+++ b/tools/procedurals/hairgen/hair.cpp
@@ -145,6 +145,11 @@ struct HairParams
 			if(name == "num_hairs")
 			{
 				valueStream >> numHairs;
+				if(numHairs < 0)
+				{
+					g_errStream << "hairgen: WARNING: num_hairs is negative\n";
+					numHairs = 0;
+				}
 			}
 			else if(name == "emitter_file_name")
 			{
diff --git a/tools/procedurals/hairgen/parenthairs.cpp b/tools/procedurals/hairgen/parenthairs.cpp
index 44246f9..bb16217 100644
--- a/tools/procedurals/hairgen/parenthairs.cpp
+++ b/tools/procedurals/hairgen/parenthairs.cpp
@@ -104,6 +104,10 @@ ParentHairs::ParentHairs(bool linear,
 	// initialize the child --> parent hair lookup scheme.
 	const FloatArray& P = m_primVars->find(Aqsis::CqPrimvarToken(
 				Aqsis::class_vertex, Aqsis::type_point, 1, "P"));
+	if(P.size() != 3*numVerts.size()*m_vertsPerCurve)
+		throw std::runtime_error("wrong number of points in parent hairs");
+	if(m_modifiers.rootIndex >= m_vertsPerCurve)
+		throw std::runtime_error("root_index is beyond the end of the parent hairs");
 	initLookup(P, numVerts.size());
 }
 
-- 
2.43.0


From e1cd2fde41c7fe69557160d83b8e3063afce3215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:27 +0000
Subject: [PATCH 109/118] fix: ustring::format of strings longer than its first
 buffer

---
 prototypes/newcore/ustring/ustring.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prototypes/newcore/ustring/ustring.cpp b/prototypes/newcore/ustring/ustring.cpp
index a1e511c..c48111f 100644
--- a/prototypes/newcore/ustring/ustring.cpp
+++ b/prototypes/newcore/ustring/ustring.cpp
@@ -155,7 +155,6 @@ ustring::format (const char *fmt, ...)
 {
     ustring tok;
     va_list ap;
-    va_start (ap, fmt);
 
     // Allocate a buffer on the stack that's big enough for us almost
     // all the time.  Be prepared to allocate dynamically if it doesn't fit.
@@ -166,13 +165,15 @@ ustring::format (const char *fmt, ...)
     
     while (1) {
         // Try to vsnprintf into our buffer.
+        va_start (ap, fmt);
         int needed = vsnprintf (buf, size, fmt, ap);
+        va_end (ap);
         // NB. C99 (which modern Linux and OS X follow) says vsnprintf
         // failure returns the length it would have needed.  But older
         // glibc and current Windows return -1 for failure, i.e., not
         // telling us how much was needed.
 
-        if (needed <= (int)size && needed >= 0) {
+        if (needed < (int)size && needed >= 0) {
             // It fit fine so we're done.
             return ustring (buf);
         }
-- 
2.43.0


From dc184c1c97fd288783b71568a7738cb59963cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:27 +0000
Subject: [PATCH 110/118] fix: a variable set assigned anew forgets the
 standard variables it held before

---
 prototypes/newcore/varspec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prototypes/newcore/varspec.h b/prototypes/newcore/varspec.h
index ff6c0e1..81da9ad 100644
--- a/prototypes/newcore/varspec.h
+++ b/prototypes/newcore/varspec.h
@@ -249,6 +249,7 @@ class BasicVarSet
         /// Update the standard indices
         void updateStdIndices()
         {
+            m_stdIndices = StdIndT();
             for(int i = 0, iend = m_vars.size(); i < iend; ++i)
                 m_stdIndices.add(i, m_vars[i]);
         }
-- 
2.43.0


From 25c4b4b0ecac62a7486b3e29b8c097eee3667136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:27 +0000
Subject: [PATCH 111/118] fix: the first variable of a grid may be diced by the
 geometry

---
 prototypes/newcore/gridstorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prototypes/newcore/gridstorage.h b/prototypes/newcore/gridstorage.h
index dd7464f..35203e0 100644
--- a/prototypes/newcore/gridstorage.h
+++ b/prototypes/newcore/gridstorage.h
@@ -240,7 +240,7 @@ class GridStorageBuilder : boost::noncopyable
         bool dicedByGeom(const GridStorage& stor, StdIndices::Id id)
         {
             int index = stor.varSet().find(id);
-            assert(index > 0);
+            assert(index >= 0);
             return m_vars[index].precedence > 0;
         }
 
-- 
2.43.0


From 829144030f262573801c8e832ea93d798ecbccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:27 +0000
Subject: [PATCH 112/118] fix: transform primitive variables which are arrays

---
 prototypes/newcore/primvar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prototypes/newcore/primvar.h b/prototypes/newcore/primvar.h
index 1043127..b974386 100644
--- a/prototypes/newcore/primvar.h
+++ b/prototypes/newcore/primvar.h
@@ -247,7 +247,7 @@ class PrimvarStorage : public RefCounted
                         break;
                     case PrimvarSpec::Point:
                         {
-                            DataView<V3f> p = m_views[ivar];
+                            DataView<V3f> p(m_views[ivar].storage());
                             assert(p.isDense());
                             for(int i = 0; i < nValues; ++i)
                                 p[i] *= trans;
@@ -255,7 +255,7 @@ class PrimvarStorage : public RefCounted
                         break;
                     case PrimvarSpec::Vector:
                         {
-                            DataView<V3f> v = m_views[ivar];
+                            DataView<V3f> v(m_views[ivar].storage());
                             assert(v.isDense());
                             for(int i = 0; i < nValues; ++i)
                                 v[i] *= vecTrans;
@@ -263,7 +263,7 @@ class PrimvarStorage : public RefCounted
                         break;
                     case PrimvarSpec::Normal:
                         {
-                            DataView<V3f> n = m_views[ivar];
+                            DataView<V3f> n(m_views[ivar].storage());
                             assert(n.isDense());
                             for(int i = 0; i < nValues; ++i)
                                 n[i] *= norTrans;
-- 
2.43.0


From 79284f67fe1a5cf14f9f209893b6b76b9e640937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 113/118] fix: spread the regular sampler's times over the
 shutter

---
 libs/core/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/grid.cpp b/libs/core/grid.cpp
index 5b50009..260477a 100644
--- a/libs/core/grid.cpp
+++ b/libs/core/grid.cpp
@@ -49,7 +49,7 @@ void CqGridSampler::setupGridPattern()
 	}
 
 	// Fill in motion blur and LoD with the same regular grid
-	TqFloat dt = 1/nSamples;
+	TqFloat dt = 1.0f/nSamples;
 	TqFloat sample = dt*0.5;
 	for(TqInt i = 0; i < nSamples; ++i)
 	{
-- 
2.43.0


From 444ed7ecb5d259ecccc10ce5f3cb35c689368c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 114/118] fix: bound a moving micropolygon where it rests
 outside its key times

---
 libs/core/micropolygon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 436280d..7bcbc9b 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -1731,7 +1731,9 @@ void CqMicroPolygonMotion::BuildBoundList(TqUint timeRanges)
 		const CqBound& end1 = m_Keys[endKey]->GetBound();
 		TqFloat end1Time = m_Times[endKey];
 
-		TqFloat mix = (time - end0Time) / (end1Time - end0Time);
+		// The micropolygon stays at its first and last keys outside of their
+		// times.
+		TqFloat mix = clamp((time - end0Time) / (end1Time - end0Time), 0.0f, 1.0f);
 		CqBound mid(end0);
 		mid.vecMin() += mix * (end1.vecMin() - end0.vecMin());
 		mid.vecMax() += mix * (end1.vecMax() - end0.vecMax());
-- 
2.43.0


From c4a4aa891c108b9cc86a44eec672859e81b9d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 115/118] fix: bound moving surfaces from their position at
 shutter opening

---
 libs/core/geometry/surface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/geometry/surface.cpp b/libs/core/geometry/surface.cpp
index 2139179..6ba4821 100644
--- a/libs/core/geometry/surface.cpp
+++ b/libs/core/geometry/surface.cpp
@@ -124,7 +124,7 @@ void CqSurface::AdjustBoundForTransformationMotion( CqBound* B ) const
 	if( keyframeTimes.size() > 1 )
 	{
 		CqMatrix matCameraToObject0;
-		QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pTransform().get(), 0, matCameraToObject0 );
+		QGetRenderContext() ->matSpaceToSpace( "camera", "object", NULL, pTransform().get(), QGetRenderContext()->Time(), matCameraToObject0 );
 		CqBound B0;
 		B0.vecMin() = B->vecMin();
 		B0.vecMax() = B->vecMax();
-- 
2.43.0


From 4c8c94a33b92ed04f0a226fb8f2e6f4779831b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 116/118] fix: place surfaces before a moving camera at shutter
 opening

---
 libs/core/renderer.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index de1617e..a2df5c8 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -1267,9 +1267,9 @@ void CqRenderer::StorePrimitive( const boost::shared_ptr<CqSurface>& pSurface )
 	else
 	{
 		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
+		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matWtoC );
+		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matNWtoC );
+		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matVWtoC );
 		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
@@ -1283,9 +1283,9 @@ void CqRenderer::PostWorld()
 		boost::shared_ptr<CqSurface> pSurface = m_aWorld.front();
 		
 		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
+		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matWtoC );
+		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matNWtoC );
+		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matVWtoC );
 		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
@@ -1301,9 +1301,9 @@ void CqRenderer::PostCloneOfWorld()
 	{
 		boost::shared_ptr<CqSurface> pSurface((*i)->Clone());
 		CqMatrix matWtoC, matNWtoC, matVWtoC;
-		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matWtoC );
-		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matNWtoC );
-		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), 0, matVWtoC );
+		QGetRenderContext() ->matSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matWtoC );
+		QGetRenderContext() ->matNSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matNWtoC );
+		QGetRenderContext() ->matVSpaceToSpace( "world", "camera", NULL, pSurface->pTransform().get(), QGetRenderContext()->Time(), matVWtoC );
 		pSurface->Transform( matWtoC, matNWtoC, matVWtoC);
 		pSurface->PrepareTrimCurve();
 		PostSurface(pSurface);
-- 
2.43.0


From 6b34bdc29b8b57d073482d8f4a254a353242ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 117/118] fix: keep the range of moving samples within the
 pixel

---
 libs/core/bucketprocessor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 0f4bc68..43c8af4 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1278,8 +1278,9 @@ void CqBucketProcessor::RenderMPG_MBOrDof( CqMicroPolygon* pMPG, bool IsMoving,
 			}
 			else
 			{
-				indexT0 = max<TqInt>(0, lfloor((time0 - opentime) * timePerSample));
-				indexT1 = lceil((time1 - opentime) * timePerSample);
+				// (rounding may take either a little beyond the last sample)
+				indexT0 = clamp<TqInt>(lfloor((time0 - opentime) * timePerSample), 0, numSamples - 1);
+				indexT1 = min<TqInt>(numSamples, lceil((time1 - opentime) * timePerSample));
 			}
 		}
 
-- 
2.43.0


From 3fb072f928169edab4243cde8dccf9064eaf51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 118/118] fix: count a moving sample on the border of two time
 ranges once

---
 libs/core/bucketprocessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 43c8af4..4938cd2 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1386,7 +1386,10 @@ void CqBucketProcessor::RenderMPG_MBOrDof( CqMicroPolygon* pMPG, bool IsMoving,
 
 						CqStats::IncI( CqStats::SPL_count );
 
-						if(IsMoving && (time < time0 || time > time1))
+						// The time ranges of successive bounds touch; a sample on
+						// their border belongs to the later one only.
+						if(IsMoving && (time < time0 || time > time1
+									|| (time == time1 && bound_numMB != bound_maxMB_1)))
 						{
 							continue;
 						}
-- 
2.43.0

