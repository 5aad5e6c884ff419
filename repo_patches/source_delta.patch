From c1775e439e54bdd63e5cb50dacf14e3344e17a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 01/41] fix: give every status its own message (the entry for a
 too large file was missing)

---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..56c6ca2 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From 5db7faf1399cebde2151a9df12a27544688b4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 02/41] fix: continue a short read where it stopped and report
 a file that ends early

---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 56c6ca2..28d669f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -400,9 +400,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From 81150fda04f445964d82c50ccd522fd45b8183e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 03/41] fix: truncate an existing file when writing

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 28d669f..cbd7958 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
-- 
2.43.0


From 0c8d158392ae1481523939620b5bc7798ba835e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 04/41] fix: accept a JSON text of a single character

---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index cbd7958..8257e54 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1693,7 +1693,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1786,7 +1786,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From f049e174fb3f0753a873aff8c3fe0ccc54c9ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:53 +0000
Subject: [PATCH 05/41] fix: accept an unescaped DEL in a string, as RFC 8259
 does

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8257e54..8b4a6d4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -751,7 +751,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From 7094ba32c333808f8eb3ed3b6d7e3fe333edd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 06/41] fix: count error lines and columns from the start of
 the text

---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8b4a6d4..6cf4ac2 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1703,11 +1703,11 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
+            const char* text  = &nullTerminatedCharArray[ 0 ];
             const char* start = text;
 
+            text += ComputeWhitespaceLength( text );
+
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-- 
2.43.0


From 0200bfb77167cf234d5dce84d63087296ac06fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 07/41] fix: keep no document after a parse that failed at
 trailing text

---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6cf4ac2..0b47877 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1718,6 +1718,9 @@ namespace C4
 
             if ( status != Status::kOk )
             {
+                delete jsonRoot;
+                jsonRoot = nullptr;
+
                 *errorLine   = 1;
                 *errorColumn = 1;
 
-- 
2.43.0


From c9f619d26d3c0db8d2573017d141e53b3e309de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 08/41] fix: accept exactly the RFC 8259 number grammar

---
 Code/Json4C4/C4Json.cpp | 49 ++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0b47877..51b08a9 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -625,10 +625,46 @@ namespace C4
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            auto skipDigits = [ &byte ]()
+            {
+                const uint8* first = byte;
+
+                while ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' )
+                {
+                    byte++;
+                }
+
+                return byte != first;
+            };
+
+            if ( !skipDigits() )
+            {
+                return 0;
+            }
+
+            if ( byte[ 0 ] == '.' )
             {
                 byte++;
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
+            }
+
+            if ( byte[ 0 ] == 'e' || byte[ 0 ] == 'E' )
+            {
+                byte++;
+
+                if ( byte[ 0 ] == '+' || byte[ 0 ] == '-' )
+                {
+                    byte++;
+                }
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
             }
 
             return int32( reinterpret_cast<const char*>( byte ) - text );
@@ -815,7 +851,7 @@ namespace C4
 
             if ( text[ 0 ] == '0' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
+                if ( text[ 1 ] >= '0' && text[ 1 ] <= '9' )
                 {
                     return ( Status::kNumbersCannotHaveLeadingZeros );
                 }
@@ -997,16 +1033,9 @@ namespace C4
             if ( c == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 720ee5bebe20ffeaa4fb35639e5fa87dad61a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 09/41] fix: decode an escaped surrogate pair as one UTF-8
 character

---
 Code/Json4C4/C4Json.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 51b08a9..d4c5ecd 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -737,16 +737,42 @@ namespace C4
 
                 if ( code != 0 )
                 {
+                    int32 textLength = 5;
+
+                    // A high surrogate that a low surrogate follows makes up a single character with it.
+                    if ( code >= 0x00D800 && code < 0x00DC00 && byte[ 5 ] == '\\' && byte[ 6 ] == 'u' )
+                    {
+                        uint32 low = 0;
+
+                        for ( machine a = 7; a <= 10; a++ )
+                        {
+                            c       = byte[ a ] - '0';
+                            int32 x = ( c < 55U ) ? hexadecimalCharValue[ c ] : -1;
+                            if ( x < 0 )
+                            {
+                                return ( 0 );
+                            }
+
+                            low = ( low << 4 ) | x;
+                        }
+
+                        if ( low >= 0x00DC00 && low < 0x00E000 )
+                        {
+                            code       = 0x010000 + ( ( code - 0x00D800 ) << 10 ) + ( low - 0x00DC00 );
+                            textLength = 11;
+                        }
+                    }
+
                     if ( string )
                     {
                         *stringLength = Text::WriteUnicodeChar( string, code );
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From 41575ce08f3ca1157ce40d381425f7e655e436b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 10/41] fix: free an array element that could not be appended

---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index d4c5ecd..b8567fa 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1452,6 +1452,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 46b1033a6968ddf86dbe0dd9bbae459c0e69eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 11/41] fix: keep one element for a repeated name and free the
 values an object does not take

---
 Code/Json4C4/C4Json.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b8567fa..129a5f5 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1530,7 +1530,14 @@ namespace C4
         {
             insertionOrder.AppendArrayElement( element->name );
 
-            return this->InsertMapElement( element );
+            if ( !this->InsertMapElement( element ) )
+            {
+                insertionOrder.RemoveLastArrayElement();
+
+                return false;
+            }
+
+            return true;
         }
 
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
@@ -1588,13 +1595,18 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 34b85894b9ede3937b17414ffdf72475a2536ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 12/41] fix: report a write that fails

---
 Code/Json4C4/C4Json.cpp | 22 +++++++++++++++++++---
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 129a5f5..518fef3 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -199,7 +199,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool IsReadOnly  = false;
+        bool writeFailed = false;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -441,6 +442,8 @@ namespace C4
 
                 if ( !ok )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -462,8 +465,10 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -475,6 +480,11 @@ namespace C4
             return kFileOkay;
         }
 
+        bool HasWriteFailed() const
+        {
+            return writeFailed;
+        }
+
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -525,7 +535,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1896,6 +1907,11 @@ namespace C4
 
                 file.CloseFile();
 
+                if ( status == Status::kOk && file.HasWriteFailed() )
+                {
+                    status = Status::kFileWriteError;
+                }
+
                 return status;
             }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..5fc2c89 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            kFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From dfcf2152386354c1c2c2f3efa74220e262302de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 13/41] fix: report an allocation failure while writing, and
 leave the file alone without a document

---
 Code/Json4C4/C4Json.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 518fef3..a837feb 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1893,29 +1893,33 @@ namespace C4
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
 
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
             {
                 return Status::KFileOpenError;
             }
 
-            Array<char> indentCharArray;
+            return MayThrow(
+                [ & ]()
+                {
+                    Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+                    Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                file.CloseFile();
+                    file.CloseFile();
 
-                if ( status == Status::kOk && file.HasWriteFailed() )
-                {
-                    status = Status::kFileWriteError;
-                }
-
-                return status;
-            }
+                    if ( status == Status::kOk && file.HasWriteFailed() )
+                    {
+                        status = Status::kFileWriteError;
+                    }
 
-            return Status::kInvalidStructuredData;
+                    return status;
+                } );
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From 4f39e329f8af5d0e7ad7861a4e105952f58bb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 14/41] fix: escape strings and names when writing

---
 Code/Json4C4/C4Json.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a837feb..e9b3859 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1152,6 +1152,39 @@ namespace C4
             return Status::kExpectedJsonValue;
         }
 
+        void WriteStringLiteral( File& file, const char* string )
+        {
+            file << '\"';
+
+            const char* run = string;
+            const char* end = string;
+
+            for ( ; *end != 0; end++ )
+            {
+                uint32 c = uint8( *end );
+                if ( c >= 32U && c != '\"' && c != '\\' )
+                {
+                    continue;
+                }
+
+                char escape[ 7 ] = { '\\', 'u', '0', '0', Text::hexDigit[ c >> 4 ], Text::hexDigit[ c & 15 ], 0 };
+
+                if ( c >= 32U )
+                {
+                    escape[ 1 ] = char( c );
+                    escape[ 2 ] = 0;
+                }
+
+                file.WriteFile( run, end - run );
+                file << escape;
+
+                run = end + 1;
+            }
+
+            file.WriteFile( run, end - run );
+            file << '\"';
+        }
+
         class StringValue final : public Value
         {
         public:
@@ -1220,7 +1253,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1751,7 +1784,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From 91d5ec7635179b88c2979e7772f2ebc17fc952ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 15/41] fix: report a number that JSON cannot express instead
 of writing inf or nan

---
 Code/Json4C4/C4Json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e9b3859..6018f57 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -79,6 +79,7 @@
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
+#    include <cmath>
 #    include <cstdio>
 #    include <cstdlib>
 #    include <cstring>
@@ -1313,6 +1314,11 @@ namespace C4
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
+                if ( !std::isfinite( data ) )
+                {
+                    return Status::kFloatInvalid;
+                }
+
                 constexpr int maxDoubleDigits = 32;
                 char          output[ maxDoubleDigits ];
 
-- 
2.43.0


From a1ef3040202dc3db7be87aeb728eb180d56e0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 16/41] fix: do not cut off the line and column in the text of
 a parse result

---
 Code/Json4C4/C4Json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6018f57..1656979 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1978,7 +1978,10 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += ". Line: ";
+                string += parseResult.errorLine;
+                string += ", column: ";
+                string += parseResult.errorColumn;
             }
 
             return string;
-- 
2.43.0


From 1a77af1545df0885c811e5bee752e728d5564fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 17/41] fix: report deserializing or validating without a
 document

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5fc2c89..5e73943 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -573,6 +573,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -625,6 +630,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From 845eb1c19738497376d7855f469ee075eb9d3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 18/41] fix: forget the old document before creating the new
 one

---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5e73943..926f892 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -598,6 +598,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From c51b0a54f41f87ed165267c81685cb2ddd1a586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 19/41] fix: create an array value for a std::vector

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 926f892..2441c48 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -534,6 +534,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
-- 
2.43.0


From 05a5f357cb30ab888c7e3107f2588d8fa8572641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 20/41] fix: report a member that could not be serialized and
 free one that is not inserted

---
 Code/Json4C4/C4Json.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 2441c48..a233efb 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -717,11 +717,15 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        Status elementStatus = Serialize( associateValue, data );
 
-                        return Status::kOk;
+                        if ( elementStatus == Status::kOk && !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete associateValue;
+                        }
+
+                        return elementStatus;
                     } );
 
                 if ( status != Status::kOk )
-- 
2.43.0


From e7d1e232194801b36c787efb711f44700f014cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 21/41] fix: serialize map elements so that they are written,
 and free what they replace

---
 Code/Json4C4/C4Json.cpp |  6 ++++
 Code/Json4C4/C4Json.h   | 78 ++++++++++++++++++++++++++++-------------
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 1656979..6255a4e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1590,6 +1590,12 @@ namespace C4
             return true;
         }
 
+        void ObjectValue::PurgeAccountedMapElements()
+        {
+            this->PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index a233efb..3263182 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -515,6 +515,7 @@ namespace C4
             TERATHON_API const ObjectValue*   FindJsonObjectValue( const char* name ) const noexcept;
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
+            TERATHON_API void PurgeAccountedMapElements();
 
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
@@ -1095,7 +1096,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
@@ -1103,24 +1104,36 @@ namespace C4
                     for ( const auto* dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement->name;
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = dataMapElement->data.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, dataMapElement->data );
+                                }
+
+                                if ( elementStatus == Status::kOk && !objectValue->InsertAccountedMapElement( elem ) )
+                                {
+                                    delete elem;
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1371,32 +1384,47 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
 
-                    for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
+                    for ( auto const& dataMapElement : data )
                     {
+                        const std::string& dataMapElementKey  = dataMapElement.first;
+                        const T&           dataMapElementData = dataMapElement.second;
+
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElementData );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElementKey.c_str();
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = dataMapElementData.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, dataMapElementData );
+                                }
+
+                                if ( elementStatus == Status::kOk && !objectValue->InsertAccountedMapElement( elem ) )
+                                {
+                                    delete elem;
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From c5ea8b5ee45eca4fa02f06638a277c2cbff72895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 22/41] fix: free a map element whose name could not be copied

---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 3263182..7b311f6 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1031,16 +1031,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
-- 
2.43.0


From 9821de60b3e7efe4084a65eca32d6d307698a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 23/41] fix: move deserialized elements into the array (a copy
 that throws lost its storage)

---
 Code/Json4C4/C4Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 7b311f6..695adda 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -899,7 +899,7 @@ namespace C4
 
                         if ( status == Status::kOk )
                         {
-                            data.AppendArrayElement( ( temp ) );
+                            data.AppendArrayElement( static_cast<T&&>( temp ) );
                         }
                         else
                         {
-- 
2.43.0


From 1fbb14070d4565646139b333a580a2974f976878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 24/41] fix: survive an allocation failure while looking up a
 name

---
 Code/Json4C4/C4Json.cpp | 26 ++++++++++++++++++++------
 Code/Json4C4/C4Json.h   | 32 ++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6255a4e..af707e4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1700,9 +1700,23 @@ namespace C4
             return this;
         }
 
+        static Value* FindElement( const ObjectValue& objectValue, const char* name ) noexcept
+        {
+            Value* jsonValue = nullptr;
+
+            MayThrow(
+                [ & ]()
+                {
+                    jsonValue = objectValue.FindMapElement( name );
+                    return Status::kOk;
+                } );
+
+            return jsonValue;
+        }
+
         const String<>* ObjectValue::FindString( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const String<>* data = jsonValue->GetDataAsPointerTo<String<>>() )
                 {
@@ -1715,7 +1729,7 @@ namespace C4
 
         const double* ObjectValue::FindNumber( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const double* data = jsonValue->GetDataAsPointerTo<double>() )
                 {
@@ -1728,7 +1742,7 @@ namespace C4
 
         const bool* ObjectValue::FindBool( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const bool* data = jsonValue->GetDataAsPointerTo<bool>() )
                 {
@@ -1741,7 +1755,7 @@ namespace C4
 
         const Null* ObjectValue::FindJsonNull( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const Null* data = jsonValue->GetDataAsPointerTo<Null>() )
                 {
@@ -1754,7 +1768,7 @@ namespace C4
 
         const Array<Value*>* ObjectValue::FindJsonValueArray( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const Array<Value*>* data = jsonValue->GetDataAsPointerTo<Array<Value*>>() )
                 {
@@ -1767,7 +1781,7 @@ namespace C4
 
         const ObjectValue* ObjectValue::FindJsonObjectValue( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindElement( *this, name ) )
             {
                 if ( const ObjectValue* value = jsonValue->AsJsonObjectValue() )
                 {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 695adda..02a8608 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -673,14 +673,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Validate( associateValue, data ); } );
+                    return Validate( associateValue, data );
+                } );
         }
 
         template <class T>
@@ -693,14 +697,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Deserialize( associateValue, data ); } );
+                    return Deserialize( associateValue, data );
+                } );
         }
 
         template <class T>
-- 
2.43.0


From b0a12ec2367be3375753dc591c9f2d269c8ee770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 25/41] fix: let types with member functions be nested as
 members and vector elements

---
 Code/Json4C4/C4Json.h | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 02a8608..52546da 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -778,23 +778,23 @@ namespace C4
         }
 
         template <class T>
-        Status Validate( const Value* value, const T& /*data*/ ) noexcept
+        Status Validate( const Value* value, [[maybe_unused]] const T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
+            if constexpr ( Detail::HasValidateMember<T>::Value )
+            {
+                return MayThrow( [ & ]() { return data.Validate( value ); } );
+            }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return valueData ? Status::kOk : Status::kInvalidValueType;
+                return valueData ? Status::kOk : Status::kInvalidValueType;
+            }
         }
 
         template <class T>
         Status Deserialize( const Value* value, T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -804,6 +804,13 @@ namespace C4
                     }
                     else
                     {
+                        const T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         data = *valueData;
                         return Status::kOk;
                     }
@@ -813,13 +820,6 @@ namespace C4
         template <class T>
         Status Serialize( Value* value, const T& data ) noexcept
         {
-            T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -829,6 +829,13 @@ namespace C4
                     }
                     else
                     {
+                        T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         *valueData = data;
 
                         return Status::kOk;
@@ -1230,7 +1237,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From 0d0cf8714bbdce5c396dca381beecf8c4cd5d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 26/41] fix: keep an array consistent when growing it fails

---
 Code/Terathon/TSArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..043cfbb 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -477,8 +477,9 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newReservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newReservedCount]);
+		reservedCount = newReservedCount;
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -787,8 +788,9 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newReservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newReservedCount]);
+		reservedCount = newReservedCount;
 
 		type *pointer = arrayPointer;
 		if (pointer)
-- 
2.43.0


From c0015d5dd62d0e00b9a39f21f5bd09e7da6e9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 27/41] fix: keep a string consistent when resizing it fails or
 returns it to its local storage

---
 Code/Terathon/TSString.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..9cc47f6 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newPhysicalSize = GetPhysicalSize(size);
+			char *newPointer = new char[newPhysicalSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newPhysicalSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -611,15 +615,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newPhysicalSize = GetPhysicalSize(size);
+					char *newPointer = new char[newPhysicalSize];
 					Text::CopyText(stringPointer, newPointer, copyLength);
+					physicalSize = newPhysicalSize;
 
 					if (stringPointer != localString)
 					{
@@ -634,8 +638,10 @@ String<0>& String<0>::SetStringLength(int32 length)
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
 				stringPointer = localString;
+				physicalSize = kStringLocalSize;
 			}
 
+			logicalSize = size;
 			stringPointer[length] = 0;
 		}
 	}
-- 
2.43.0


From 951bf6e84006414e4bfc651ed633892ae21bab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 28/41] fix: replace the root element of a map

---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From 98a2b04dcf8ad46d6b61fd0f44bc3ed8d1b63c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:44 +0000
Subject: [PATCH 29/41] fix: limit the nesting depth so that a deeply nested
 text cannot exhaust the stack

---
 Code/Json4C4/C4Json.cpp | 35 ++++++++++++++++++++++++-----------
 Code/Json4C4/C4Json.h   |  7 ++++---
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index af707e4..8a9ef05 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -97,6 +97,8 @@
 
 #define MAX_FILE_SIZE 0xffff - 1
 
+#define MAX_NESTING_DEPTH 512
+
 namespace C4
 {
 
@@ -537,7 +539,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Could not write file" };
+                                                    "Could not write file",
+                                                    "JSON text is nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1077,8 +1080,8 @@ namespace C4
             return ( false );
         }
 
-        template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        template <class T, class... Args>
+        Status ParseValue( Value*& value, const char*& text, Args... args ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1094,7 +1097,7 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text, args... ); } );
 
             if ( status == Status::kOk )
             {
@@ -1108,7 +1111,7 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, uint32 depth = 0 ) noexcept
         {
             const char* start = text;
 
@@ -1138,13 +1141,13 @@ namespace C4
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1460,13 +1463,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, uint32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1487,7 +1495,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1596,13 +1604,18 @@ namespace C4
             insertionOrder.PurgeArray();
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, uint32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1641,7 +1654,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 52546da..5290e3c 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            kFileWriteError
+            kFileWriteError,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -472,7 +473,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, uint32 depth = 0 ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -499,7 +500,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, uint32 depth = 0 ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From fafb92fab3d7ba63c9c92185515ec0836feb422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 30/41] fix: report an allocation failure in a number or
 literal as such, not as a syntax error

---
 Code/Json4C4/C4Json.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8a9ef05..6592415 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1123,21 +1123,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-- 
2.43.0


From a9dc2a61de07cc3b0b83a6702b43ed23b63d7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:42 +0000
Subject: [PATCH 31/41] fix: forgive an optional name only when that name
 itself is absent

---
 Code/Json4C4/C4Json.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5290e3c..e54da88 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1449,6 +1449,25 @@ namespace C4
 
 #endif
 
+        namespace Detail
+        {
+            inline bool IsNameAbsent( const Value* value, const char* name ) noexcept
+            {
+                const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+                bool absent = false;
+
+                MayThrow(
+                    [ & ]()
+                    {
+                        absent = objectValue && !objectValue->FindMapElement( name );
+                        return Status::kOk;
+                    } );
+
+                return absent;
+            }
+        } // namespace Detail
+
         inline Status ValidateProto( const Value* ) noexcept
         {
             return Status::kOk;
@@ -1485,7 +1504,8 @@ namespace C4
         {
             Status status = Validate( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // A name that is absent further down, inside the value of this name, is still an error.
+            if ( status != Status::kOk && !( status == Status::kNameNotPresent && Detail::IsNameAbsent( value, name ) ) )
             {
                 return status;
             }
@@ -1529,7 +1549,8 @@ namespace C4
         {
             Status status = Deserialize( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // A name that is absent further down, inside the value of this name, is still an error.
+            if ( status != Status::kOk && !( status == Status::kNameNotPresent && Detail::IsNameAbsent( value, name ) ) )
             {
                 return status;
             }
-- 
2.43.0


From 3522f4657999cc88b8b7ea75bba792c0f9b58a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 32/41] fix: let structures with arrays be elements of arrays
 and maps with every compiler

---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index e54da88..d2689fd 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -217,7 +217,7 @@ namespace C4
             using KeyType = Terathon::String<>;
 
             KeyType   name;
-            ValueType data = ValueType {};
+            ValueType data = ValueType();
 
             TERATHON_API inline const KeyType& GetKey() const noexcept
             {
@@ -857,7 +857,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    const T temp {};
+                    const T temp = T();
 
                     Status status;
 
@@ -1185,7 +1185,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    const T temp {};
+                    const T temp = T();
                     Status  status;
 
                     for ( Value* value : *valueData )
-- 
2.43.0


From 4a04d703d6038e3dac92f4753a8d0e0407ef94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:51 +0000
Subject: [PATCH 33/41] fix: report an error in a string at the string, not
 behind white space that follows it

---
 Code/Json4C4/C4Json.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6592415..8006bdf 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1864,10 +1864,14 @@ namespace C4
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                if ( text[ 0 ] != 0 )
+                {
+                    status = Status::kExpectedEndOfFile;
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From d543f7daafe1a93db76bc3cc94f2b5d5fabeafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 34/41] fix: keep a string consistent when appending to it
 fails

---
 Code/Terathon/TSString.cpp | 40 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 9cc47f6..5f58a52 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -447,8 +447,9 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -474,8 +475,9 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -498,8 +500,9 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -521,8 +524,9 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -542,8 +546,9 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -563,8 +568,9 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -584,8 +590,9 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newPhysicalSize];
+		physicalSize = newPhysicalSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -665,8 +672,9 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newPhysicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newPhysicalSize];
+			physicalSize = newPhysicalSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
-- 
2.43.0


From da75ab517bf7e8c831cc0c41cff39ce34ae18e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:53 +0000
Subject: [PATCH 35/41] fix: keep the text of a string that is assigned to
 itself

---
 Code/Terathon/TSString.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 5f58a52..5f46dfa 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -350,6 +350,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -381,6 +386,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
-- 
2.43.0


From fcdaf35c532993612c8e16e2a6d1c58b9ce56d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:54 +0000
Subject: [PATCH 36/41] fix: append no more of a text to a string than it has

---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 5f46dfa..671f849 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -677,6 +677,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 004e8251b0a95de9ba85afaf57afa547870db966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:57 +0000
Subject: [PATCH 37/41] fix: free the storage of a moved array whose elements
 fit into the new one

---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 043cfbb..da3f895 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -419,6 +419,12 @@ namespace Terathon
 				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
 				pointer[a].~type();
 			}
+
+			char *ptr = reinterpret_cast<char *>(pointer);
+			if (ptr != array.arrayStorage)
+			{
+				delete[] ptr;
+			}
 		}
 
 		array.elementCount = 0;
-- 
2.43.0


From 19fec83d7c2875ea9ac20123015f9477de188ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 38/41] fix: keep an array consistent when constructing an
 element fails

---
 Code/Terathon/TSArray.h | 50 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index da3f895..eb9a783 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,19 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
-
-		if (elementCount > baseCount)
+		int32 count = array.elementCount;
+		if (count > baseCount)
 		{
+			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * array.reservedCount]);
 			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		for (machine a = 0; a < count; a++)
 		{
 			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount = int32(a + 1);
 		}
 	}
 
@@ -527,6 +522,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount = int32(a + 1);
 			}
 		}
 		else if (count < elementCount)
@@ -555,6 +551,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount = int32(a + 1);
 			}
 		}
 		else if (count < elementCount)
@@ -616,6 +613,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount = int32(a + 1);
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
@@ -623,6 +621,8 @@ namespace Terathon
 		}
 		else
 		{
+			type newElement(static_cast<T&&>(element));
+
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
@@ -636,7 +636,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(newElement));
 			elementCount = count;
 		}
 	}
@@ -720,22 +720,13 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
-
-		if (reservedCount > 0)
-		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
+		int32 count = array.elementCount;
+		for (machine a = 0; a < count; a++)
 		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount = int32(a + 1);
 		}
 	}
 
@@ -837,6 +828,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount = int32(a + 1);
 			}
 		}
 		else if (count < elementCount)
@@ -865,6 +857,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount = int32(a + 1);
 			}
 		}
 		else if (count < elementCount)
@@ -926,6 +919,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount = int32(a + 1);
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
@@ -933,6 +927,8 @@ namespace Terathon
 		}
 		else
 		{
+			type newElement(static_cast<T&&>(element));
+
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
@@ -946,7 +942,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(newElement));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From f090e9c295baa7103b3461a1392f2361e358270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 39/41] fix: write unsigned integers and the smallest signed
 integers in full

---
 Code/Terathon/TSString.cpp | 10 +++---
 Code/Terathon/TSString.h   |  8 ++---
 Code/Terathon/TSText.cpp   | 69 ++++++++------------------------------
 Code/Terathon/TSText.h     |  1 +
 4 files changed, 24 insertions(+), 64 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 671f849..fc685e7 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::UnsignedInteger64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -431,7 +431,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -569,7 +569,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
@@ -613,7 +613,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..f103ae5 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
@@ -308,7 +308,7 @@ namespace Terathon
 			String& operator +=(uint64 n)
 			{
 				int32 l = GetStringLength();
-				Text::Integer64ToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..6687dbc 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1165,79 +1165,38 @@ int32 Text::FindTextCaseless(const char *s1, const char *s2)
 
 int32 Text::IntegerToString(int32 num, char *text, int32 max)
 {
-	char	c[16];
-
-	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
-
-	machine length = 0;
-	do
-	{
-		int32 p = num % 10;
-		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+	return (Integer64ToString(num, text, max));
+}
 
-	machine a = -1;
-	if (negative)
+int32 Text::Integer64ToString(int64 num, char *text, int32 max)
+{
+	if (num >= 0)
 	{
-		if (++a < max)
-		{
-			text[a] = '-';
-		}
-		else
-		{
-			text[a] = 0;
-			return (int32(a));
-		}
+		return (UnsignedInteger64ToString(uint64(num), text, max));
 	}
 
-	do
+	if (max < 1)
 	{
-		if (++a < max)
-		{
-			text[a] = c[--length];
-		}
-		else
-		{
-			text[a] = 0;
-			return (int32(a));
-		}
-	} while (length != 0);
+		text[0] = 0;
+		return (0);
+	}
 
-	text[++a] = 0;
-	return (int32(a));
+	text[0] = '-';
+	return (UnsignedInteger64ToString(0 - uint64(num), text + 1, max - 1) + 1);
 }
 
-int32 Text::Integer64ToString(int64 num, char *text, int32 max)
+int32 Text::UnsignedInteger64ToString(uint64 num, char *text, int32 max)
 {
 	char	c[32];
 
-	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
-
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
-		c[length++] = char(p + 48);
+		c[length++] = char(num % 10 + 48);
 		num /= 10;
 	} while (num != 0);
 
 	machine a = -1;
-	if (negative)
-	{
-		if (++a < max)
-		{
-			text[a] = '-';
-		}
-		else
-		{
-			text[a] = 0;
-			return (int32(a));
-		}
-	}
-
 	do
 	{
 		if (++a < max)
diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..b749b2c 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -351,6 +351,7 @@ namespace Terathon
 
 		TERATHON_API int32 IntegerToString(int32 num, char *text, int32 max);
 		TERATHON_API int32 Integer64ToString(int64 num, char *text, int32 max);
+		TERATHON_API int32 UnsignedInteger64ToString(uint64 num, char *text, int32 max);
 		TERATHON_API int32 FloatToString(float num, char *text, int32 max);
 
 		TERATHON_API int32 GetResourceNameLength(const char *text);
-- 
2.43.0


From 88b97ca5e632379a83cf63c684e32ebaadd59342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 40/41] fix: append a string to itself once

---
 Code/Terathon/TSString.cpp | 2 +-
 Code/Terathon/TSString.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index fc685e7..2f79297 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -470,7 +470,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			stringPointer = newPointer;
 		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
+		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index f103ae5..a6cdf56 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(Text::GetTextLength(s), len - l));
 				return (*this);
 			}
 
-- 
2.43.0


From f9785ce9efaed8a0d23ac5dc3ed945b601c7a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 41/41] fix: an array's own element could not be appended,
 inserted or used to fill it when the storage moved

---
 Code/Terathon/TSArray.h | 56 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index eb9a783..3cab221 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -540,17 +540,18 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetArrayElementCount(int32 count, const type& init)
 	{
-		if (count > reservedCount)
-		{
-			SetReservedCount(count);
-		}
-
 		if (count > elementCount)
 		{
+			const type newElement(init);
+			if (count > reservedCount)
+			{
+				SetReservedCount(count);
+			}
+
 			type *pointer = arrayPointer + (elementCount - 1);
 			for (machine a = elementCount; a < count; a++)
 			{
-				new(++pointer) type(init);
+				new(++pointer) type(newElement);
 				elementCount = int32(a + 1);
 			}
 		}
@@ -587,7 +588,16 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be one of this array, so it is taken before the storage moves.
+
+			type newElement(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+
+			type *pointer = arrayPointer + elementCount;
+			new(pointer) type(static_cast<type&&>(newElement));
+
+			elementCount++;
+			return (pointer);
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -601,6 +611,8 @@ namespace Terathon
 	template <typename T>
 	void Array<type, baseCount>::InsertArrayElement(int32 index, T&& element)
 	{
+		type newElement(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -616,13 +628,11 @@ namespace Terathon
 				elementCount = int32(a + 1);
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(newElement));
 			elementCount = count;
 		}
 		else
 		{
-			type newElement(static_cast<T&&>(element));
-
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
@@ -846,17 +856,18 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetArrayElementCount(int32 count, const type& init)
 	{
-		if (count > reservedCount)
-		{
-			SetReservedCount(count);
-		}
-
 		if (count > elementCount)
 		{
+			const type newElement(init);
+			if (count > reservedCount)
+			{
+				SetReservedCount(count);
+			}
+
 			type *pointer = arrayPointer + (elementCount - 1);
 			for (machine a = elementCount; a < count; a++)
 			{
-				new(++pointer) type(init);
+				new(++pointer) type(newElement);
 				elementCount = int32(a + 1);
 			}
 		}
@@ -893,7 +904,16 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be one of this array, so it is taken before the storage moves.
+
+			type newElement(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+
+			type *pointer = arrayPointer + elementCount;
+			new(pointer) type(static_cast<type&&>(newElement));
+
+			elementCount++;
+			return (pointer);
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -907,6 +927,8 @@ namespace Terathon
 	template <typename T>
 	void Array<type, 0>::InsertArrayElement(int32 index, T&& element)
 	{
+		type newElement(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -922,13 +944,11 @@ namespace Terathon
 				elementCount = int32(a + 1);
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(newElement));
 			elementCount = count;
 		}
 		else
 		{
-			type newElement(static_cast<T&&>(element));
-
 			int32 count = elementCount + 1;
 			if (count > reservedCount)
 			{
-- 
2.43.0

