From dcb117601f9900d30acdd2102347f3c17e165fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 01/26] fix: string streams follow neither the host's locale
 nor hide allocation failures

Numbers were formatted and parsed through string streams that use the global
locale, so a host application with e.g. digit grouping got damaged documents.
A std::bad_alloc inside a string stream only set its badbit, so that text was
silently missing from the result.
---
 Sourcecode/private/mx/api/ClefData.cpp        |  4 +-
 Sourcecode/private/mx/api/DocumentManager.cpp |  7 +--
 Sourcecode/private/mx/api/Version.cpp         |  4 +-
 Sourcecode/private/mx/core/Color.cpp          |  6 +--
 .../core/CommaSeparatedPositiveIntegers.cpp   | 11 ++---
 .../private/mx/core/CommaSeparatedText.cpp    |  6 +--
 Sourcecode/private/mx/core/Date.cpp           | 12 ++---
 Sourcecode/private/mx/core/Decimals.cpp       | 10 ++---
 Sourcecode/private/mx/core/Document.cpp       |  5 ++-
 Sourcecode/private/mx/core/DocumentSpec.cpp   |  8 ++--
 .../private/mx/core/ElementInterface.cpp      | 10 ++---
 Sourcecode/private/mx/core/FontSize.cpp       |  4 +-
 Sourcecode/private/mx/core/Integers.cpp       | 10 ++---
 Sourcecode/private/mx/core/NumberOrNormal.cpp |  6 +--
 .../mx/core/PositiveIntegerOrEmpty.cpp        |  6 +--
 .../private/mx/core/ProcessingInstruction.cpp |  4 +-
 Sourcecode/private/mx/core/YesNoNumber.cpp    |  4 +-
 .../mx/ezxml/src/include/ezxml/XDocSpec.h     |  2 +
 .../private/mx/impl/LayoutFunctions.cpp       |  5 ++-
 Sourcecode/private/mx/impl/MeasureWriter.h    |  4 +-
 Sourcecode/private/mx/impl/PartReader.cpp     |  4 +-
 Sourcecode/private/mx/impl/PartWriter.cpp     |  4 +-
 Sourcecode/private/mx/utility/StringStream.h  | 44 +++++++++++++++++++
 23 files changed, 113 insertions(+), 67 deletions(-)
 create mode 100644 Sourcecode/private/mx/utility/StringStream.h

diff --git a/Sourcecode/private/mx/api/ClefData.cpp b/Sourcecode/private/mx/api/ClefData.cpp
index 440bad2..d9bdbc4 100644
--- a/Sourcecode/private/mx/api/ClefData.cpp
+++ b/Sourcecode/private/mx/api/ClefData.cpp
@@ -3,7 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/api/ClefData.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -22,7 +22,7 @@ namespace mx
 
         std::string ClefData::toString() const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             ss << "Symbol ";
             switch(symbol)
             {
diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..8cb768c 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -8,6 +8,7 @@
 #include "mx/core/Document.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
+#include "mx/utility/StringStream.h"
 
 #define LOCK_DOCUMENT_MANAGER std::lock_guard<std::mutex> lock(myImpl->myMutex);
 
@@ -80,7 +81,7 @@ namespace mx
                 if ( ( originalMessage.find( "status_no_document_element" ) != std::string::npos) &&
                      fileExtension( filePath ) == "mxl" )
                 {
-                    std::stringstream ss;
+                    utility::StringStream ss;
                     ss << "it looks like you are trying to parse a compressed musicxml file, which is currently "
                     << "unsupported. https://github.com/webern/mx/issues/66 ("
                     << originalMessage << ")";
@@ -91,7 +92,7 @@ namespace mx
             }
 
             auto mxdoc = mx::core::makeDocument();
-            std::stringstream messages;
+            utility::StringStream messages;
             auto isSuccess = mxdoc->fromXDoc( messages, *xdoc );
             
             if( !isSuccess )
@@ -111,7 +112,7 @@ namespace mx
             xdoc->loadStream( stream );            
             auto mxdoc = mx::core::makeDocument();
             
-            std::stringstream messages;
+            utility::StringStream messages;
             auto isSuccess = mxdoc->fromXDoc( messages, *xdoc );
             
             if( !isSuccess )
diff --git a/Sourcecode/private/mx/api/Version.cpp b/Sourcecode/private/mx/api/Version.cpp
index ad61597..7e9d494 100644
--- a/Sourcecode/private/mx/api/Version.cpp
+++ b/Sourcecode/private/mx/api/Version.cpp
@@ -4,7 +4,7 @@
 
 #include "mx/api/Version.h"
 #include "mx/impl/MxVersionDefines.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -53,7 +53,7 @@ namespace mx
         , myBuild{ MX_VERSION_BUILD }
         , myString{}
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             ss <<
             myMajor << "." <<
             myMinor << "." <<
diff --git a/Sourcecode/private/mx/core/Color.cpp b/Sourcecode/private/mx/core/Color.cpp
index 6f1f60d..770797c 100644
--- a/Sourcecode/private/mx/core/Color.cpp
+++ b/Sourcecode/private/mx/core/Color.cpp
@@ -3,7 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/core/Color.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 #include <iomanip>
 
 namespace mx
@@ -142,7 +142,7 @@ namespace mx
             IntType getInt( const std::string& str, int startpos )
             {
                 IntType val = 0;
-                std::stringstream ss( str.substr( static_cast<size_t>( startpos ), 2 ) );
+                utility::StringStream ss( str.substr( static_cast<size_t>( startpos ), 2 ) );
                 ss << std::hex;
                 ss << std::uppercase;
                 ss >> val;
@@ -235,7 +235,7 @@ namespace mx
  
         std::string toString( const Color& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..690811a 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -4,6 +4,7 @@
 
 #include "mx/core/CommaSeparatedPositiveIntegers.h"
 #include "mx/core/StringUtils.h"
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -80,13 +81,13 @@ namespace mx
         {
             StringType cleaned = onlyAllow( commaSeparatedText, "", "1234567890,-" );
             myValues.clear();
-            std::istringstream iss( cleaned );
+            utility::StringStream iss( cleaned );
             std::string token;
             while( std::getline( iss, token, ',' ) )
             {
                 if ( token.length() > 0 )
                 {
-                    std::stringstream ss( token );
+                    utility::StringStream ss( token );
                     int value = 1;
                     ss >> value;
                     if ( value > 0 )
@@ -117,7 +118,7 @@ namespace mx
             {
                 if( isfirst )
                 {
-                    os << x;
+                    os << std::to_string( x );
                     isfirst = false;
                 }
                 else
@@ -127,7 +128,7 @@ namespace mx
                     {
                         os << " ";
                     }
-                    os << x;
+                    os << std::to_string( x );
                 }
             }
             return os;
@@ -142,7 +143,7 @@ namespace mx
         
         StringType toString( const CommaSeparatedListOfPositiveIntegers& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/CommaSeparatedText.cpp b/Sourcecode/private/mx/core/CommaSeparatedText.cpp
index df95e2d..d6027ff 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedText.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedText.cpp
@@ -3,9 +3,9 @@
 // Distributed under the MIT License
 
 #include "mx/core/CommaSeparatedText.h"
+#include "mx/utility/StringStream.h"
 
 #include <istream>
-#include <sstream>
 
 namespace mx
 {
@@ -35,7 +35,7 @@ namespace mx
         void CommaSeparatedText::parse( const StringType& commaSeparatedText )
         {
             myValues.clear();
-            std::istringstream iss( commaSeparatedText );
+            utility::StringStream iss( commaSeparatedText );
             std::string token;
             
             while( std::getline( iss, token, ',' ) )
@@ -115,7 +115,7 @@ namespace mx
         
         StringType toString( const CommaSeparatedText& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 2f7b270..32ec6bd 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -3,7 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/core/Date.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 #include <ctime>
 
 namespace
@@ -12,7 +12,7 @@ namespace
     {
         char prev_fillch = os.fill ('0');
         std::streamsize prev_width = os.width( width );
-        os << value;
+        os << std::to_string( value );
         os.fill( prev_fillch );
         os.width( prev_width );
         return os;
@@ -146,7 +146,7 @@ namespace mx
             bool parseStringYear( const std::string& value_in, int& year_out )
             {
                 year_out = -1;
-                std::stringstream( value_in.substr( 0, 4 ) ) >> year_out;
+                utility::StringStream( value_in.substr( 0, 4 ) ) >> year_out;
                 bool success = false;
                 if ( year_out >= 1 && year_out <= 9999 )
                 {
@@ -159,7 +159,7 @@ namespace mx
             bool parseStringMonth( const std::string& value_in, int& month_out )
             {
                 month_out = -1;
-                std::stringstream( value_in.substr( 5, 2 ) ) >> month_out;
+                utility::StringStream( value_in.substr( 5, 2 ) ) >> month_out;
                 bool success = false;
                 if ( month_out >= 1 && month_out <= 12 )
                 {
@@ -172,7 +172,7 @@ namespace mx
             bool parseStringDay( const std::string& value_in, int& day_out )
             {
                 day_out = -1;
-                std::stringstream( value_in.substr( 8, 2 ) ) >> day_out;
+                utility::StringStream( value_in.substr( 8, 2 ) ) >> day_out;
                 bool success = false;
                 if ( day_out >= 1 && day_out <= 31 )
                 {
@@ -797,7 +797,7 @@ namespace mx
 
         std::string toString( const Date& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..6b43bb9 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -4,13 +4,13 @@
 
 // self
 #include "mx/core/Decimals.h"
+#include "mx/utility/StringStream.h"
 
 // lib
 #include "mx/core/UnusedParameter.h"
 
 // std
 #include <cmath>
-#include <sstream>
 
 namespace mx
 {
@@ -126,7 +126,7 @@ namespace mx
                 os << "-";
             }
 
-            os << myInteger;
+            os << std::to_string( myInteger );
 
             if( myDecimal == 0 )
             {
@@ -136,7 +136,7 @@ namespace mx
             os << ".";
 
             auto decIntStr = std::to_string( myDecimal );
-            std::stringstream ss;
+            utility::StringStream ss;
 
             bool isNonZeroReached = false;
 
@@ -189,7 +189,7 @@ namespace mx
 
         std::string PreciseDecimal::toString() const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss );
             return ss.str();
         }
@@ -300,7 +300,7 @@ namespace mx
 
         bool Decimal::parse( const std::string& value )
         {
-            std::stringstream ss( value );
+            utility::StringStream ss( value );
             DecimalType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
diff --git a/Sourcecode/private/mx/core/Document.cpp b/Sourcecode/private/mx/core/Document.cpp
index c369e54..d20a3be 100644
--- a/Sourcecode/private/mx/core/Document.cpp
+++ b/Sourcecode/private/mx/core/Document.cpp
@@ -8,6 +8,7 @@
 #include "ezxml/XElementIterator.h"
 #include "ezxml/XAttributeIterator.h"
 #include "mx/core/ScoreConversions.h"
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -136,9 +137,9 @@ namespace mx
         
         void Document::toXDoc( ::ezxml::XDoc& outXDoc ) const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss );
-            std::istringstream is( ss.str() );
+            utility::StringStream is( ss.str() );
             
             outXDoc.loadStream( is );
             switch ( myChoice )
diff --git a/Sourcecode/private/mx/core/DocumentSpec.cpp b/Sourcecode/private/mx/core/DocumentSpec.cpp
index f02c0cc..a73e99d 100644
--- a/Sourcecode/private/mx/core/DocumentSpec.cpp
+++ b/Sourcecode/private/mx/core/DocumentSpec.cpp
@@ -5,7 +5,7 @@
 #include "mx/core/DocumentSpec.h"
 #include "mx/utility/Parse.h"
 #include "mx/core/UnusedParameter.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -30,7 +30,7 @@ namespace mx
         
         std::string toString( const DocumentChoice value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
@@ -69,7 +69,7 @@ namespace mx
         
         std::string toString( const MusicXmlVersion value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
@@ -106,7 +106,7 @@ namespace mx
         
         std::string toString( const SpecificationType value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/ElementInterface.cpp b/Sourcecode/private/mx/core/ElementInterface.cpp
index 6c11eec..b019cb3 100644
--- a/Sourcecode/private/mx/core/ElementInterface.cpp
+++ b/Sourcecode/private/mx/core/ElementInterface.cpp
@@ -6,7 +6,7 @@
 #include "ezxml/XElement.h"
 #include "ezxml/XElementIterator.h"
 #include "ezxml/XFactory.h"
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -60,7 +60,7 @@ namespace mx
         }
         bool ElementInterface::hasContents() const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             bool discard;
             streamContents( ss, 0, discard );
             return ( ss.str() ).length() > 0;
@@ -77,10 +77,10 @@ namespace mx
             }
             else
             {
-                std::stringstream ss;
+                utility::StringStream ss;
                 streamWithoutProcessingInstructions( ss, 0 );
                 const auto xml = ss.str();
-                std::istringstream iss{ xml };
+                utility::StringStream iss{ xml };
                 const auto xdoc = ::ezxml::XFactory::makeXDoc();
                 xdoc->loadStream( iss );
                 const auto root = xdoc->getRoot();
@@ -94,7 +94,7 @@ namespace mx
         
         const std::string ElementInterface::getElementName() const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             this->streamName( ss );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/FontSize.cpp b/Sourcecode/private/mx/core/FontSize.cpp
index ca39b1f..6b77e74 100644
--- a/Sourcecode/private/mx/core/FontSize.cpp
+++ b/Sourcecode/private/mx/core/FontSize.cpp
@@ -4,9 +4,9 @@
 
 // self
 #include "mx/core/FontSize.h"
+#include "mx/utility/StringStream.h"
 
 // std
-#include <sstream>
 #include <type_traits>
 
 namespace mx
@@ -110,7 +110,7 @@ namespace mx
 
         std::string toString( const FontSize& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Integers.cpp b/Sourcecode/private/mx/core/Integers.cpp
index c13b327..5d8b9e2 100644
--- a/Sourcecode/private/mx/core/Integers.cpp
+++ b/Sourcecode/private/mx/core/Integers.cpp
@@ -4,9 +4,7 @@
 
 // self
 #include "mx/core/Integers.h"
-
-// std
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -36,7 +34,7 @@ namespace mx
 
         bool Integer::parse( const std::string& value )
         {
-            std::stringstream ss( value );
+            utility::StringStream ss( value );
             IntType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
@@ -48,14 +46,14 @@ namespace mx
 
         std::string toString( const Integer& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
 
         std::ostream& toStream( std::ostream& os, const Integer& value )
         {
-            return os << value.getValue();
+            return os << std::to_string( value.getValue() );
         }
 
 
diff --git a/Sourcecode/private/mx/core/NumberOrNormal.cpp b/Sourcecode/private/mx/core/NumberOrNormal.cpp
index db52fb2..a5ef1b0 100644
--- a/Sourcecode/private/mx/core/NumberOrNormal.cpp
+++ b/Sourcecode/private/mx/core/NumberOrNormal.cpp
@@ -4,9 +4,7 @@
 
 // self
 #include "mx/core/NumberOrNormal.h"
-
-// std
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -136,7 +134,7 @@ namespace mx
         
         std::string toString( const NumberOrNormal& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp b/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
index 1f72902..e358447 100644
--- a/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
+++ b/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
@@ -4,9 +4,7 @@
 
 // self
 #include "mx/core/PositiveIntegerOrEmpty.h"
-
-// std
-#include <sstream>
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -137,7 +135,7 @@ namespace mx
         
         std::string toString( const PositiveIntegerOrEmpty& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/ProcessingInstruction.cpp b/Sourcecode/private/mx/core/ProcessingInstruction.cpp
index 6ff144d..a5192d7 100644
--- a/Sourcecode/private/mx/core/ProcessingInstruction.cpp
+++ b/Sourcecode/private/mx/core/ProcessingInstruction.cpp
@@ -4,8 +4,8 @@
 
 #include "mx/core/ProcessingInstruction.h"
 #include "mx/utility/Throw.h"
+#include "mx/utility/StringStream.h"
 
-#include <sstream>
 
 namespace mx
 {
@@ -76,7 +76,7 @@ namespace mx
 
         StringType ProcessingInstruction::toString() const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             this->toStream( ss );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/YesNoNumber.cpp b/Sourcecode/private/mx/core/YesNoNumber.cpp
index 1826f40..1c83cf6 100644
--- a/Sourcecode/private/mx/core/YesNoNumber.cpp
+++ b/Sourcecode/private/mx/core/YesNoNumber.cpp
@@ -4,9 +4,9 @@
 
 // self
 #include "mx/core/YesNoNumber.h"
+#include "mx/utility/StringStream.h"
 
 // std
-#include <sstream>
 #include <type_traits>
 
 namespace mx
@@ -110,7 +110,7 @@ namespace mx
 
         std::string toString( const YesNoNumber& value )
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/ezxml/src/include/ezxml/XDocSpec.h b/Sourcecode/private/mx/ezxml/src/include/ezxml/XDocSpec.h
index 798861d..cd91222 100644
--- a/Sourcecode/private/mx/ezxml/src/include/ezxml/XDocSpec.h
+++ b/Sourcecode/private/mx/ezxml/src/include/ezxml/XDocSpec.h
@@ -41,6 +41,7 @@ namespace ezxml
     toString( const XmlVersion value )
     {
         std::stringstream ss;
+        ss.exceptions( std::ios_base::badbit ); // do not hide e.g. std::bad_alloc
         toStream( ss, value );
         return ss.str();
     }
@@ -95,6 +96,7 @@ namespace ezxml
     toString( const Encoding value )
     {
         std::stringstream ss;
+        ss.exceptions( std::ios_base::badbit ); // do not hide e.g. std::bad_alloc
         toStream( ss, value );
         return ss.str();
     }
diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..157a665 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -27,6 +27,7 @@
 #include "mx/core/elements/SystemMargins.h"
 #include "mx/core/elements/TopMargin.h"
 #include "mx/core/elements/TopSystemDistance.h"
+#include "mx/utility/StringStream.h"
 
 namespace mx
 {
@@ -240,7 +241,9 @@ namespace mx
                 {
                     const auto oa = core::makeOtherAppearance();
                     oa->getAttributes()->type = appearanceData.appearanceSubType;
-                    oa->setValue( core::XsString{ std::to_string( appearanceData.value ) } );
+                    utility::StringStream ss;
+                    ss << std::fixed << appearanceData.value;
+                    oa->setValue( core::XsString{ ss.str() } );
                     outScoreHeaderGroup.setHasDefaults( true );
                     outScoreHeaderGroup.getDefaults()->setHasAppearance( true );
                     outScoreHeaderGroup.getDefaults()->getAppearance()->addOtherAppearance( oa );
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.h b/Sourcecode/private/mx/impl/MeasureWriter.h
index a7d68dd..920d64a 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.h
+++ b/Sourcecode/private/mx/impl/MeasureWriter.h
@@ -11,9 +11,9 @@
 #include "mx/impl/Converter.h"
 #include "mx/impl/MeasureCursor.h"
 #include "mx/impl/PropertiesWriter.h"
+#include "mx/utility/StringStream.h"
 
 #include <list>
-#include <sstream>
 
 namespace mx
 {
@@ -181,7 +181,7 @@ namespace mx
 
                 std::string toString() const
                 {
-                    std::stringstream ss;
+                    utility::StringStream ss;
                     for( const auto& record : history )
                     {
                         ss << record.timeBefore << " " << record.reason << std::endl;
diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..4c3f62a 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -48,8 +48,8 @@
 #include "mx/core/elements/Volume.h"
 #include "mx/impl/MeasureReader.h"
 #include "mx/impl/PrintFunctions.h"
+#include "mx/utility/StringStream.h"
 
-#include <sstream>
 
 namespace mx
 {
@@ -225,7 +225,7 @@ namespace mx
         
         std::string PartReader::extractDisplayText( const core::DisplayTextOrAccidentalTextSet& items ) const
         {
-            std::stringstream ss;
+            utility::StringStream ss;
             for( const auto& c : items )
             {
                 if( c->getChoice() == core::DisplayTextOrAccidentalText::Choice::displayText )
diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..67b416b 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -47,8 +47,8 @@
 #include "mx/impl/MeasureCursor.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/api/DocumentManager.h"
+#include "mx/utility/StringStream.h"
 
-#include <sstream>
 
 namespace mx
 {
@@ -216,7 +216,7 @@ namespace mx
             {
                 if( myPartData.instrumentData.uniqueId.size() == 0 )
                 {
-                    std::stringstream ss;
+                    utility::StringStream ss;
                     ss << "ID";
                     ss << api::DocumentManager::getInstance().getUniqueId();
                     scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
diff --git a/Sourcecode/private/mx/utility/StringStream.h b/Sourcecode/private/mx/utility/StringStream.h
new file mode 100644
index 0000000..bbfba32
--- /dev/null
+++ b/Sourcecode/private/mx/utility/StringStream.h
@@ -0,0 +1,44 @@
+// MusicXML Class Library
+// Copyright (c) by Matthew James Briggs
+// Distributed under the MIT License
+
+#pragma once
+
+#include <locale>
+#include <sstream>
+#include <string>
+
+namespace mx
+{
+    namespace utility
+    {
+        /// A string stream for building and reading MusicXML text.
+        ///
+        /// It always uses the classic locale, because the numbers in a MusicXML file have one form
+        /// whatever std::locale the host application has installed.
+        ///
+        /// It lets exceptions (e.g. std::bad_alloc) out. A plain std::stringstream swallows them and
+        /// only sets its badbit, so that text would be silently incomplete.
+        class StringStream : public std::stringstream
+        {
+        public:
+            StringStream()
+            {
+                init();
+            }
+
+            explicit StringStream( const std::string& value )
+            : std::stringstream( value )
+            {
+                init();
+            }
+
+        private:
+            void init()
+            {
+                imbue( std::locale::classic() );
+                exceptions( std::ios_base::badbit );
+            }
+        };
+    }
+}
-- 
2.43.0


From 69895b09f49a5f85f51bac2781eeb3190ee8191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 02/26] fix: report memory exhaustion when the XML declaration
 and doctype are set

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index de22ba2..049a21a 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -6,6 +6,7 @@
 #include "private/Parse.h"
 
 #include <fstream>
+#include <new>
 
 namespace ezxml
 {
@@ -13,6 +14,17 @@ namespace ezxml
     static constexpr unsigned int standardOptions =
             pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi;
 
+    // pugixml does not throw when it runs out of memory, it returns false (or a null node or attribute,
+    // on which the next call then returns false).
+    static void
+    throwIfFailed( bool isSuccess )
+    {
+        if( !isSuccess )
+        {
+            throw std::bad_alloc{};
+        }
+    }
+
 
     PugiDoc::PugiDoc()
             : myDoc(),
@@ -23,7 +35,7 @@ namespace ezxml
     {
         std::istringstream is( R"(<?xml version="1.0" encoding="UTF-8"?><root/>)" );
         auto options = pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype;
-        myDoc.load( is, options );
+        throwIfFailed( myDoc.load( is, options ).status == pugi::status_ok );
     }
 
     // Don't look at me, I'm ugly.
@@ -110,11 +122,11 @@ namespace ezxml
         else if( myDoc.begin()->type() != pugi::node_declaration )
         {
             auto xmlDeclaration = myDoc.prepend_child( pugi::node_declaration );
-            xmlDeclaration.set_name( "xml" );
+            throwIfFailed( xmlDeclaration.set_name( "xml" ) );
             auto ver = xmlDeclaration.append_attribute( "version" );
-            ver.set_value( "1.0" );
+            throwIfFailed( ver.set_value( "1.0" ) );
             ver = xmlDeclaration.append_attribute( "encoding" );
-            ver.set_value( "UTF-8" );
+            throwIfFailed( ver.set_value( "UTF-8" ) );
         }
         else
         {
@@ -122,9 +134,9 @@ namespace ezxml
             if( xmlDec.attributes_begin() == xmlDec.attributes_end() )
             {
                 auto attr = xmlDec.append_attribute( "version" );
-                attr.set_value( "1.0" );
+                throwIfFailed( attr.set_value( "1.0" ) );
                 attr = xmlDec.append_attribute( "encoding" );
-                attr.set_value( "UTF-8" );
+                throwIfFailed( attr.set_value( "UTF-8" ) );
             }
             else
             {
@@ -133,7 +145,7 @@ namespace ezxml
                 if( !compareCaseInsensitive( "version", it->name() ) )
                 {
                     auto attr = xmlDec.prepend_attribute( "version" );
-                    attr.set_value( "1.0" );
+                    throwIfFailed( attr.set_value( "1.0" ) );
                 }
                 auto verAttr = xmlDec.attributes_begin();
                 it = xmlDec.attributes_begin();
@@ -141,7 +153,7 @@ namespace ezxml
                 if( it == end || !compareCaseInsensitive( "encoding", it->name() ) )
                 {
                     auto encodingAttr = xmlDec.insert_attribute_after( "encoding", *verAttr );
-                    encodingAttr.set_value( "UTF-8" );
+                    throwIfFailed( encodingAttr.set_value( "UTF-8" ) );
                 }
             }
         }
@@ -261,7 +273,7 @@ namespace ezxml
             {
                 EZXML_THROW( "the first attribute of the xml declaration must be 'version'" );
             }
-            attr->set_value( toString( value ).c_str() );
+            throwIfFailed( attr->set_value( toString( value ).c_str() ) );
         }
         myXmlVersion = value;
     }
@@ -286,7 +298,7 @@ namespace ezxml
         {
             EZXML_THROW( "the 'encoding' attribute could not be found" );
         }
-        attr.set_value( toString( value ).c_str() );
+        throwIfFailed( attr.set_value( toString( value ).c_str() ) );
         myEncoding = value;
     }
 
@@ -339,11 +351,11 @@ namespace ezxml
             auto attr = xmlDeclarationNode.insert_attribute_after( "standalone", *it );
             if( myIsStandalone )
             {
-                attr.set_value( "yes" );
+                throwIfFailed( attr.set_value( "yes" ) );
             }
             else
             {
-                attr.set_value( "no" );
+                throwIfFailed( attr.set_value( "no" ) );
             }
             return;
         }
@@ -378,11 +390,11 @@ namespace ezxml
         auto attr = getXmlDeclarationAttribute( "standalone" );
         if( value )
         {
-            attr.set_value( "yes" );
+            throwIfFailed( attr.set_value( "yes" ) );
         }
         else
         {
-            attr.set_value( "no" );
+            throwIfFailed( attr.set_value( "no" ) );
         }
         myIsStandalone = value;
     }
@@ -426,7 +438,7 @@ namespace ezxml
             {
                 EZXML_THROW( "bad xml document state" );
             }
-            myDoc.insert_child_after( pugi::node_doctype, xmlDeclarationNode );
+            throwIfFailed( !myDoc.insert_child_after( pugi::node_doctype, xmlDeclarationNode ).empty() );
             return;
         }
         else if( !value )
@@ -457,7 +469,7 @@ namespace ezxml
     {
         setHasDoctypeDeclaration( true );
         auto doctypeNode = getDoctypeNode();
-        doctypeNode.set_value( value.c_str() );
+        throwIfFailed( doctypeNode.set_value( value.c_str() ) );
     }
 
 
@@ -516,7 +528,7 @@ namespace ezxml
             EZXML_THROW( "encoding value was not found" );
         }
         myEncoding = parseEncoding( attr.value() );
-        attr.set_value( toString( myEncoding ).c_str() );
+        throwIfFailed( attr.set_value( toString( myEncoding ).c_str() ) );
     }
 
 
-- 
2.43.0


From 830cde5f19fc88a261fded83259ece0cf402a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 03/26] fix: saving to a file reports write and close errors

---
 Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index 049a21a..d573515 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -232,6 +232,11 @@ namespace ezxml
 
         saveStream( outfile );
         outfile.close();
+
+        if( !outfile )
+        {
+            throw std::runtime_error( std::string{ "error writing file: " } + filename );
+        }
     }
 
 
-- 
2.43.0


From 1756deaf260f55335a1d2bf2ee836cc0c1bc3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 04/26] fix: createFromFile keeps the message of the original
 exception

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index 8cb768c..e4c3e27 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -88,7 +88,7 @@ namespace mx
                     MX_THROW( ss.str() );
                 }
 
-                throw e;
+                throw;
             }
 
             auto mxdoc = mx::core::makeDocument();
-- 
2.43.0


From 54a0cd558e288d8a4bfccac4bd59d546e89e7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 05/26] fix: getData does not modify time-wise documents

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index e4c3e27..7fc02eb 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,7 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 #include "mx/utility/StringStream.h"
@@ -190,21 +191,18 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
+            // the document may be in use through handles: do not convert it in place
+            const bool isTimewise = it->second->getChoice() == core::DocumentChoice::timewise;
+            const auto scorePartwise = isTimewise
+                ? core::timewisePartwise( it->second->getScoreTimewise() )
+                : it->second->getScorePartwise();
 
-            if( it->second->getChoice() == core::DocumentChoice::timewise )
-            {
-                wasTimewise = true;
-                it->second->convertContents();
-            }
-
-            impl::ScoreReader reader{ *it->second->getScorePartwise() };
+            impl::ScoreReader reader{ *scorePartwise };
             auto score = reader.getScoreData();
 
-            if( wasTimewise )
+            if( isTimewise )
             {
                 score.musicXmlType = "timewise";
-                it->second->convertContents();
             }
             return score;
         }
-- 
2.43.0


From 8aca00fd540e8b9cd6ab3075b9af762b0cf59b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 06/26] fix: Date::today can be called from several threads

---
 Sourcecode/private/mx/core/Date.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 32ec6bd..2606ab0 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -658,10 +658,15 @@ namespace mx
         Date Date::today()
         {
             std::time_t t = std::time( 0 );
-            struct tm* now = std::localtime( &t );
-            const int y = static_cast<int>( now->tm_year + 1900 );
-            const int m = static_cast<int>( now->tm_mon + 1 );
-            const int d = static_cast<int>( now->tm_mday );
+            struct tm now = {};
+#ifdef _WIN32
+            localtime_s( &now, &t );
+#else
+            localtime_r( &t, &now );
+#endif
+            const int y = static_cast<int>( now.tm_year + 1900 );
+            const int m = static_cast<int>( now.tm_mon + 1 );
+            const int d = static_cast<int>( now.tm_mday );
             return Date{ y, m, d };
         }
 
-- 
2.43.0


From a1607659b4945e25f5e221a671cf928cbef3b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 07/26] fix: part-wise to time-wise conversion of parts with
 different numbers of measures

---
 Sourcecode/private/mx/core/ScoreConversions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..a5364e8 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -77,7 +77,8 @@ namespace mx
                     {
                         return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
                     });
-                    if ( partIter != inScore->getPartwisePartSet().cend() )
+                    if ( partIter != inScore->getPartwisePartSet().cend() &&
+                         currentMeasureIndex < (*partIter)->getPartwiseMeasureSet().size() )
                     {
                         auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
                         /* Find the Correct Measure Within The Part */
-- 
2.43.0


From ca3f566994de42d72ead67d9339999fd2a46e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 08/26] fix: XML handles do not touch a document that was
 released

---
 .../ezxml/src/private/private/PugiAttribute.cpp  | 16 ++++++++++++++++
 .../private/private/PugiAttributeIterImpl.cpp    | 12 ++++++++++++
 .../mx/ezxml/src/private/private/PugiElement.cpp | 12 ++++++++++++
 .../src/private/private/PugiElementIterImpl.cpp  | 16 ++++++++++++++++
 4 files changed, 56 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
index 27a7a4f..71b3cc1 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
@@ -46,6 +46,10 @@ namespace ezxml
     std::string
     PugiAttribute::getName() const
     {
+        if( getIsNull() )
+        {
+            return std::string{};
+        }
         return myAttribute.name();
     }
 
@@ -53,6 +57,10 @@ namespace ezxml
     std::string
     PugiAttribute::getValue() const
     {
+        if( getIsNull() )
+        {
+            return std::string{};
+        }
         return myAttribute.value();
     }
 
@@ -60,6 +68,10 @@ namespace ezxml
     void
     PugiAttribute::setName( const std::string& name )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_name( name.c_str() );
     }
 
@@ -67,6 +79,10 @@ namespace ezxml
     void
     PugiAttribute::setValue( const std::string& value )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_value( value.c_str() );
     }
 }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
index f4f5a6b..ac1d2e1 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
@@ -51,6 +51,10 @@ namespace ezxml
     bool
     PugiAttributeIterImpl::getIsEndIter() const
     {
+        if( getIsPayloadNull() )
+        {
+            return true;
+        }
         if( myIter == myParentElement.attributes_end() )
         {
             return true;
@@ -123,6 +127,10 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::increment()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
         ++myIter;
         return *this;
     }
@@ -131,6 +139,10 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::decrement()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
         --myIter;
         return *this;
     }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 00ec2ea..fc9c054 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -41,6 +41,10 @@ namespace ezxml
     XElementPtr
     PugiElement::clone() const
     {
+        if( getIsNull() )
+        {
+            return XElementPtr( new PugiElement{} );
+        }
         return XElementPtr( new PugiElement{ myNode, myXDoc.lock() } );
     }
 
@@ -321,6 +325,10 @@ namespace ezxml
     bool
     PugiElement::removeChild( const std::string& elementName )
     {
+        if( getIsNull() )
+        {
+            return false;
+        }
         const auto result = myNode.remove_child( elementName.c_str() );
         update();
         return result;
@@ -354,6 +362,10 @@ namespace ezxml
     void
     PugiElement::removeAttribute( const XAttributeIterator& iter )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         auto it = myNode.attributes_begin();
         auto e = myNode.attributes_end();
         for( ; it != e; ++it )
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
index 2225522..f16e312 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
@@ -88,6 +88,10 @@ namespace ezxml
     bool
     PugiElementIterImpl::getIsEndIter() const
     {
+        if( getIsPayloadNull() )
+        {
+            return true;
+        }
         if( myIter == myIterParent.end() )
         {
             return true;
@@ -100,6 +104,10 @@ namespace ezxml
     bool
     PugiElementIterImpl::getIsBeginIter() const
     {
+        if( getIsPayloadNull() )
+        {
+            return true;
+        }
         if( myIter == myIterParent.begin() )
         {
             return true;
@@ -202,6 +210,10 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::increment()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
         ++myIter;
 
         if( mySkipProcessingInstructions )
@@ -223,6 +235,10 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::decrement()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
         --myIter;
 
         if( mySkipProcessingInstructions )
-- 
2.43.0


From 01c69b96eccaa2860c66aed1dee6ee8cb1ec2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 09/26] fix: carriage returns in text survive saving and
 loading

---
 Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
index 90c48b2..3c5f6f2 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
@@ -1860,7 +1860,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32, &, <, ", '
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1869,7 +1869,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  2,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  1,  0,     // 48-63
-- 
2.43.0


From 59a1c8258eb07e57bf73540d34723a2b72e19d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 10/26] fix: quotation marks and line breaks in attribute
 values survive saving

---
 .../private/mx/core/AttributesInterface.cpp   | 35 +++++++++++++++++++
 .../private/mx/core/AttributesInterface.h     |  9 ++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/AttributesInterface.cpp b/Sourcecode/private/mx/core/AttributesInterface.cpp
index ad2ffc3..356f550 100644
--- a/Sourcecode/private/mx/core/AttributesInterface.cpp
+++ b/Sourcecode/private/mx/core/AttributesInterface.cpp
@@ -21,6 +21,41 @@ namespace mx
         }
 
 
+        std::ostream& streamAttributeText( std::ostream& os, const std::string& text )
+        {
+            if( text.find_first_of( "\"\t\n\r" ) == std::string::npos )
+            {
+                return os << text;
+            }
+            for( const auto c : text )
+            {
+                switch ( c )
+                {
+                    case '"':
+                        os << "&quot;";
+                        break;
+
+                    case '\t':
+                        os << "&#9;";
+                        break;
+
+                    case '\n':
+                        os << "&#10;";
+                        break;
+
+                    case '\r':
+                        os << "&#13;";
+                        break;
+
+                    default:
+                        os << c;
+                        break;
+                }
+            }
+            return os;
+        }
+
+
         bool
         AttributesInterface::fromXElement( std::ostream& message, ::ezxml::XElement& xelement )
         {
diff --git a/Sourcecode/private/mx/core/AttributesInterface.h b/Sourcecode/private/mx/core/AttributesInterface.h
index ff21d60..eadf3c5 100644
--- a/Sourcecode/private/mx/core/AttributesInterface.h
+++ b/Sourcecode/private/mx/core/AttributesInterface.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include "mx/core/UnusedParameter.h"
+#include "mx/utility/StringStream.h"
 
 #include <iostream>
 #include <memory>
@@ -35,6 +36,10 @@ namespace mx
 
         std::ostream& operator<<( std::ostream& os, const AttributesInterface& value );
         
+        /// The values escape markup themselves. In an attribute, the quotation mark has to be escaped
+        /// as well, and so does any white space that a reader would turn into a plain space.
+        std::ostream& streamAttributeText( std::ostream& os, const std::string& text );
+
         template<class T>
         std::ostream& streamAttribute( std::ostream& os,
                                        const T& value,
@@ -46,7 +51,9 @@ namespace mx
                 os << " ";
                 os << attributeName;
                 os << "=\"";
-                os << value;
+                utility::StringStream text;
+                text << value;
+                streamAttributeText( os, text.str() );
                 os << "\"";
             }
             return os;
-- 
2.43.0


From 626156d3c191a63c670cab8b70546d31bcb1bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 11/26] fix: custom text of enumerated values is escaped when
 saved

---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..8ca00b8 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return os << XsString( toString( value ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return os << XsString( toString( value ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return os << XsString( toString( value ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return os << XsString( toString( value ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From d4b047baaff09f5f80beeabece710f64473f0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 12/26] fix: carriage returns in element text survive saving

---
 Sourcecode/private/mx/core/XsString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..af90b34 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,10 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '\r':
+                        os << "&#13;";
+                        break;
+
                     default:
                         os << c;
                         break;
-- 
2.43.0


From aa0dad203a83be03e1f32c3e511495bd34b8e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 13/26] fix: text that consists of white space survives loading

---
 Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index d573515..7133f78 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -12,7 +12,8 @@ namespace ezxml
 {
 
     static constexpr unsigned int standardOptions =
-            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi;
+            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi |
+            pugi::parse_ws_pcdata_single;
 
     // pugixml does not throw when it runs out of memory, it returns false (or a null node or attribute,
     // on which the next call then returns false).
-- 
2.43.0


From dd8f7228c1033f7e5af812c1edcec34774bd547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 14/26] fix: saving does not hold the document manager's lock
 during output

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index 7fc02eb..6f5b593 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -148,34 +148,32 @@ namespace mx
         
         void DocumentManager::writeToFile( int documentId, const std::string& filePath ) const
         {
-            LOCK_DOCUMENT_MANAGER
-            
-            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
-            
-            if( it == myImpl->myMap.cend() )
+            // the lock is not held during the input and output: the stream may depend on other calls
+            const auto document = getDocument( documentId );
+
+            if( !document )
             {
                 return;
             }
-            
+
             auto xdoc = ::ezxml::XFactory::makeXDoc();
-            it->second->toXDoc( *xdoc );
+            document->toXDoc( *xdoc );
             xdoc->saveFile( filePath );
         }
         
         
         void DocumentManager::writeToStream( int documentId, std::ostream& stream ) const
         {
-            LOCK_DOCUMENT_MANAGER
-            
-            const DocumentMap::const_iterator it = myImpl->myMap.find( documentId );
-            
-            if( it == myImpl->myMap.cend() )
+            // the lock is not held during the input and output: the stream may depend on other calls
+            const auto document = getDocument( documentId );
+
+            if( !document )
             {
                 return;
             }
-            
+
             auto xdoc = ::ezxml::XFactory::makeXDoc();
-            it->second->toXDoc( *xdoc );
+            document->toXDoc( *xdoc );
             xdoc->saveStream( stream );
         }
 
-- 
2.43.0


From 2a02a31c7b07476f7ae4c0cb0d7be3d7476a2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 15/26] fix: an XML handle in use keeps its document until the
 call ends

---
 .../src/private/private/PugiAttribute.cpp     |  4 ++++
 .../private/private/PugiAttributeIterImpl.cpp |  5 +++++
 .../ezxml/src/private/private/PugiElement.cpp | 19 +++++++++++++++++++
 .../private/private/PugiElementIterImpl.cpp   |  9 +++++++++
 4 files changed, 37 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
index 71b3cc1..993b97e 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
@@ -46,6 +46,7 @@ namespace ezxml
     std::string
     PugiAttribute::getName() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return std::string{};
@@ -57,6 +58,7 @@ namespace ezxml
     std::string
     PugiAttribute::getValue() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return std::string{};
@@ -68,6 +70,7 @@ namespace ezxml
     void
     PugiAttribute::setName( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return;
@@ -79,6 +82,7 @@ namespace ezxml
     void
     PugiAttribute::setValue( const std::string& value )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return;
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
index ac1d2e1..23bbd53 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
@@ -51,6 +51,7 @@ namespace ezxml
     bool
     PugiAttributeIterImpl::getIsEndIter() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             return true;
@@ -91,6 +92,7 @@ namespace ezxml
     XAttribute&
     PugiAttributeIterImpl::getRef() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -109,6 +111,7 @@ namespace ezxml
     XAttribute*
     PugiAttributeIterImpl::getPtr() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -127,6 +130,7 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::increment()
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -139,6 +143,7 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::decrement()
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index fc9c054..a03c45e 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -41,6 +41,7 @@ namespace ezxml
     XElementPtr
     PugiElement::clone() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return XElementPtr( new PugiElement{} );
@@ -52,6 +53,7 @@ namespace ezxml
     XElementType
     PugiElement::getType() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return XElementType::null;
@@ -107,6 +109,7 @@ namespace ezxml
     std::string
     PugiElement::getName() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return "";
@@ -118,6 +121,7 @@ namespace ezxml
     std::string
     PugiElement::getValue() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return std::string{};
@@ -137,6 +141,7 @@ namespace ezxml
     void
     PugiElement::setName( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return;
@@ -149,6 +154,7 @@ namespace ezxml
     void
     PugiElement::setValue( const std::string& value )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return;
@@ -186,6 +192,7 @@ namespace ezxml
     XElementPtr
     PugiElement::getParent() const
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         return XElementPtr{ new PugiElement{ myNode.parent(), myXDoc.lock() } };
@@ -195,6 +202,7 @@ namespace ezxml
     XElementPtr
     PugiElement::getNextSibling() const
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto nextSibling = myNode.next_sibling();
@@ -221,6 +229,7 @@ namespace ezxml
     XElementIterator
     PugiElement::begin() const
     {
+        const auto keepAlive = myXDoc.lock();
         auto iter = beginWithProcessingInstructions();
         iter.setSkipProcessingInstructions( true );
 
@@ -238,6 +247,7 @@ namespace ezxml
     XElementIterator
     PugiElement::beginWithProcessingInstructions() const
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto beginIter = myNode.begin();
@@ -273,6 +283,7 @@ namespace ezxml
     XAttributeIterator
     PugiElement::attributesBegin() const
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         return XAttributeIterator( PugiAttributeIterImpl{ myNode.attributes_begin(), myNode, myXDoc.lock() } );
@@ -282,6 +293,7 @@ namespace ezxml
     XAttributeIterator
     PugiElement::attributesEnd() const
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         return XAttributeIterator( PugiAttributeIterImpl{ myNode.attributes_end(), myNode, myXDoc.lock() } );
@@ -291,6 +303,7 @@ namespace ezxml
     XElementPtr
     PugiElement::appendChild( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XElementPtr{ new PugiElement{ myNode.append_child( name.c_str() ), myXDoc.lock() } };
@@ -302,6 +315,7 @@ namespace ezxml
     XElementPtr
     PugiElement::prependChild( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XElementPtr{ new PugiElement{ myNode.prepend_child( name.c_str() ), myXDoc.lock() } };
@@ -313,6 +327,7 @@ namespace ezxml
     XElementPtr
     PugiElement::insertSiblingAfter( const std::string& newElementName )
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         auto newNode = myNode.parent().insert_child_after( newElementName.c_str(), myNode );
@@ -325,6 +340,7 @@ namespace ezxml
     bool
     PugiElement::removeChild( const std::string& elementName )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return false;
@@ -338,6 +354,7 @@ namespace ezxml
     XAttributePtr
     PugiElement::appendAttribute( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XAttributePtr{
@@ -350,6 +367,7 @@ namespace ezxml
     XAttributePtr
     PugiElement::prependAttribute( const std::string& name )
     {
+        const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XAttributePtr{
@@ -362,6 +380,7 @@ namespace ezxml
     void
     PugiElement::removeAttribute( const XAttributeIterator& iter )
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsNull() )
         {
             return;
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
index f16e312..0e14886 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
@@ -88,6 +88,7 @@ namespace ezxml
     bool
     PugiElementIterImpl::getIsEndIter() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             return true;
@@ -104,6 +105,7 @@ namespace ezxml
     bool
     PugiElementIterImpl::getIsBeginIter() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             return true;
@@ -120,6 +122,7 @@ namespace ezxml
     bool
     PugiElementIterImpl::getIsProcessingInstruction() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( this->getIsEndIter() )
         {
             return false;
@@ -174,6 +177,7 @@ namespace ezxml
     XElement&
     PugiElementIterImpl::getRef() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -192,6 +196,7 @@ namespace ezxml
     XElement*
     PugiElementIterImpl::getPtr() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -210,6 +215,7 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::increment()
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -235,6 +241,7 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::decrement()
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             EZXML_THROW_XNULL;
@@ -260,6 +267,7 @@ namespace ezxml
     pugi::xml_node_type
     PugiElementIterImpl::getPugiXmlNodeType() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             return pugi::node_null;
@@ -271,6 +279,7 @@ namespace ezxml
     bool
     PugiElementIterImpl::hasTextData() const
     {
+        const auto keepAlive = myXDoc.lock();
         if( getIsPayloadNull() )
         {
             return false;
-- 
2.43.0


From 07ebcc98415a7c92e9a5263a34c52bf2f1aaad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 16/26] fix: XML tree edits report exhausted memory

---
 .../src/private/private/PugiAttribute.cpp     | 11 +++-
 .../ezxml/src/private/private/PugiElement.cpp | 66 ++++++++++++++++---
 2 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
index 993b97e..d41a26a 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
@@ -3,6 +3,7 @@
 #include "private/PugiAttribute.h"
 #include "ezxml/XDoc.h"
 #include "private/PugiAttributeIterImpl.h"
+#include <new>
 
 namespace ezxml
 {
@@ -75,7 +76,10 @@ namespace ezxml
         {
             return;
         }
-        myAttribute.set_name( name.c_str() );
+        if( myAttribute && !myAttribute.set_name( name.c_str() ) )
+        {
+            throw std::bad_alloc{};
+        }
     }
 
 
@@ -87,6 +91,9 @@ namespace ezxml
         {
             return;
         }
-        myAttribute.set_value( value.c_str() );
+        if( myAttribute && !myAttribute.set_value( value.c_str() ) )
+        {
+            throw std::bad_alloc{};
+        }
     }
 }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index a03c45e..df5e2ed 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -7,12 +7,57 @@
 #include "ezxml/XAttributeIterImpl.h"
 #include "private/PugiAttributeIterImpl.h"
 #include "private/XThrow.h"
+#include <cstring>
+#include <new>
 
 #define EZXML_CHECK_NULL_NODE if( getIsNull() ) { EZXML_THROW_XNULL; }
 #define EZXML_CHECK_NODE_ELEMENT if ( myNodeType != pugi::node_element && myNodeType != pugi::node_pi ) { EZXML_THROW( "bad internal state, node should be an element" ); }
 
 namespace ezxml
 {
+    namespace
+    {
+        // pugixml reports exhausted memory by leaving the name or the value of a node or an attribute out
+        void
+        checkAllocated( bool isSuccess )
+        {
+            if( !isSuccess )
+            {
+                throw std::bad_alloc{};
+            }
+        }
+
+
+        pugi::xml_node
+        checkName( pugi::xml_node parent, pugi::xml_node node, const std::string& name )
+        {
+            if( node && std::strcmp( name.c_str(), node.name() ) != 0 )
+            {
+                parent.remove_child( node );
+                checkAllocated( false );
+            }
+
+            return node;
+        }
+
+
+        pugi::xml_attribute
+        checkName( pugi::xml_node parent, pugi::xml_attribute attribute, const std::string& name )
+        {
+            if( !attribute )
+            {
+                checkAllocated( parent.type() != pugi::node_element );
+            }
+            else if( std::strcmp( name.c_str(), attribute.name() ) != 0 )
+            {
+                parent.remove_attribute( attribute );
+                checkAllocated( false );
+            }
+
+            return attribute;
+        }
+    }
+
 
     PugiElement::PugiElement()
             : myNode(), myXDoc( XDocCPtr{ nullptr } ), myNodeType{ pugi::xml_node_type::node_null }, myEndIter{}
@@ -146,7 +191,7 @@ namespace ezxml
         {
             return;
         }
-        myNode.set_name( name.c_str() );
+        checkAllocated( myNode.set_name( name.c_str() ) );
         update();
     }
 
@@ -168,14 +213,18 @@ namespace ezxml
         else if( xetype == XElementType::empty )
         {
             auto newnode = myNode.prepend_child( pugi::node_pcdata );
-            newnode.set_value( value.c_str() );
+            if( !newnode.set_value( value.c_str() ) )
+            {
+                myNode.remove_child( newnode );
+                checkAllocated( false );
+            }
             update();
             return;
         }
         else if( xetype == XElementType::text )
         {
             auto it = myNode.begin();
-            it->set_value( value.c_str() );
+            checkAllocated( it->set_value( value.c_str() ) || it->type() == pugi::node_element );
             update();
             return;
         }
@@ -306,7 +355,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XElementPtr{ new PugiElement{ myNode.append_child( name.c_str() ), myXDoc.lock() } };
+        const auto result = XElementPtr{ new PugiElement{ checkName( myNode, myNode.append_child( name.c_str() ), name ), myXDoc.lock() } };
         update();
         return result;
     }
@@ -318,7 +367,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XElementPtr{ new PugiElement{ myNode.prepend_child( name.c_str() ), myXDoc.lock() } };
+        const auto result = XElementPtr{ new PugiElement{ checkName( myNode, myNode.prepend_child( name.c_str() ), name ), myXDoc.lock() } };
         update();
         return result;
     }
@@ -330,7 +379,8 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        auto newNode = myNode.parent().insert_child_after( newElementName.c_str(), myNode );
+        auto parent = myNode.parent();
+        auto newNode = checkName( parent, parent.insert_child_after( newElementName.c_str(), myNode ), newElementName );
         const auto result = XElementPtr{ new PugiElement{ newNode, myXDoc.lock() } };
         update();
         return result;
@@ -358,7 +408,7 @@ namespace ezxml
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XAttributePtr{
-                new PugiAttribute{ myNode.append_attribute( name.c_str() ), myNode, myXDoc.lock() } };
+                new PugiAttribute{ checkName( myNode, myNode.append_attribute( name.c_str() ), name ), myNode, myXDoc.lock() } };
         update();
         return result;
     }
@@ -371,7 +421,7 @@ namespace ezxml
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
         const auto result = XAttributePtr{
-                new PugiAttribute{ myNode.prepend_attribute( name.c_str() ), myNode, myXDoc.lock() } };
+                new PugiAttribute{ checkName( myNode, myNode.prepend_attribute( name.c_str() ), name ), myNode, myXDoc.lock() } };
         update();
         return result;
     }
-- 
2.43.0


From 89bc39101359122f6583cf0a09f6d9f88be91895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 17/26] fix: a failed encoding conversion frees the input
 buffer

---
 Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
index 3c5f6f2..eaed265 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
@@ -4701,7 +4701,11 @@ PUGI__NS_BEGIN
 		size_t length = 0;
 
 		// coverity[var_deref_model]
-		if (!impl::convert_buffer(buffer, length, buffer_encoding, contents, size, is_mutable)) return impl::make_parse_result(status_out_of_memory);
+		if (!impl::convert_buffer(buffer, length, buffer_encoding, contents, size, is_mutable))
+		{
+			if (own && contents) impl::xml_memory::deallocate(contents);
+			return impl::make_parse_result(status_out_of_memory);
+		}
 
 		// delete original buffer if we performed a conversion
 		if (own && buffer != contents && contents) impl::xml_memory::deallocate(contents);
-- 
2.43.0


From 91a6aa282f465b80799bd7b9c2ff47f24f1660aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 18/26] fix: colors are written the same way to a stream of any
 locale

---
 Sourcecode/private/mx/core/Color.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/Sourcecode/private/mx/core/Color.cpp b/Sourcecode/private/mx/core/Color.cpp
index 770797c..e5ca974 100644
--- a/Sourcecode/private/mx/core/Color.cpp
+++ b/Sourcecode/private/mx/core/Color.cpp
@@ -236,28 +236,20 @@ namespace mx
         std::string toString( const Color& value )
         {
             utility::StringStream ss;
-            toStream( ss, value );
+            ss << "#" << std::hex << std::setfill('0') << std::uppercase;
+
+            if ( value.getColorType() == Color::ColorType::ARGB )
+            {
+                ss << std::setw(2) << value.getAlpha();
+            }
+            ss << std::setw(2) << value.getRed();
+            ss << std::setw(2) << value.getGreen();
+            ss << std::setw(2) << value.getBlue();
             return ss.str();
         }
 		std::ostream& toStream( std::ostream& os, const Color& value )
         {
-            auto flagsval = os.flags();
-            auto fillval = os.fill();
-            auto widthval = os.width();
-            os << "#";
-            
-            if ( value.getColorType() == Color::ColorType::ARGB )
-            {
-                os << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getAlpha();
-            }
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getRed();
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getGreen();
-            os  << std::hex << std::setfill('0') << std::setw(2) << std::uppercase << value.getBlue();
-            os.flags( flagsval );
-            os.width( widthval );
-            os.flags( flagsval );
-            os.fill( fillval );
-            return os;
+            return os << toString( value );
         }
 		std::ostream& operator<<( std::ostream& os, const Color& value )
         {
-- 
2.43.0


From 812d4c0cee376bec63b07b7772afe1da3576ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 19/26] fix: an arrow reads its children once

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..ba263eb 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,11 +141,11 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                    break;
                 }
                 myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                isSuccess &= myArrowGroup->fromXElement( message, xelement );
+                break;
             }
 
             MX_RETURN_IS_SUCCESS;
-- 
2.43.0


From fdb7dd756df4c9dc8aa629a49d0c224cae788fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 20/26] fix: an element that cannot be read is named in the
 error message

---
 Sourcecode/private/mx/core/ElementInterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/core/ElementInterface.cpp b/Sourcecode/private/mx/core/ElementInterface.cpp
index b019cb3..d4b4eb4 100644
--- a/Sourcecode/private/mx/core/ElementInterface.cpp
+++ b/Sourcecode/private/mx/core/ElementInterface.cpp
@@ -128,8 +128,14 @@ namespace mx
                 }
             }
             
+            const auto messageStart = message.tellp();
             const bool result = this->fromXElementImpl( message, xelement );
 
+            if( !result && message.tellp() == messageStart )
+            {
+                message << "'" << xelement.getName() << "' could not be read" << std::endl;
+            }
+
             // check for processing instructions
 
             if( xelement.getType() == ezxml::XElementType::element )
-- 
2.43.0


From 42211892c0fbe37a90e191ec8626ff67709c0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:46 +0000
Subject: [PATCH 21/26] fix: an edit of an XML tree that fails leaves the tree
 as it was

---
 .../ezxml/src/private/private/PugiElement.cpp | 61 +++++++++++--------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index df5e2ed..0263e3a 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -56,6 +56,37 @@ namespace ezxml
 
             return attribute;
         }
+
+
+        // an edit that fails leaves the tree as it was
+        XElementPtr
+        makeElement( pugi::xml_node parent, pugi::xml_node node, const XDocCPtr& xdoc )
+        {
+            try
+            {
+                return XElementPtr{ new PugiElement{ node, xdoc } };
+            }
+            catch( ... )
+            {
+                parent.remove_child( node );
+                throw;
+            }
+        }
+
+
+        XAttributePtr
+        makeAttribute( pugi::xml_node parent, pugi::xml_attribute attribute, const XDocCPtr& xdoc )
+        {
+            try
+            {
+                return XAttributePtr{ new PugiAttribute{ attribute, parent, xdoc } };
+            }
+            catch( ... )
+            {
+                parent.remove_attribute( attribute );
+                throw;
+            }
+        }
     }
 
 
@@ -192,7 +223,6 @@ namespace ezxml
             return;
         }
         checkAllocated( myNode.set_name( name.c_str() ) );
-        update();
     }
 
 
@@ -218,14 +248,12 @@ namespace ezxml
                 myNode.remove_child( newnode );
                 checkAllocated( false );
             }
-            update();
             return;
         }
         else if( xetype == XElementType::text )
         {
             auto it = myNode.begin();
             checkAllocated( it->set_value( value.c_str() ) || it->type() == pugi::node_element );
-            update();
             return;
         }
     }
@@ -355,9 +383,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XElementPtr{ new PugiElement{ checkName( myNode, myNode.append_child( name.c_str() ), name ), myXDoc.lock() } };
-        update();
-        return result;
+        return makeElement( myNode, checkName( myNode, myNode.append_child( name.c_str() ), name ), keepAlive );
     }
 
 
@@ -367,9 +393,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XElementPtr{ new PugiElement{ checkName( myNode, myNode.prepend_child( name.c_str() ), name ), myXDoc.lock() } };
-        update();
-        return result;
+        return makeElement( myNode, checkName( myNode, myNode.prepend_child( name.c_str() ), name ), keepAlive );
     }
 
 
@@ -381,9 +405,7 @@ namespace ezxml
         EZXML_CHECK_NODE_ELEMENT;
         auto parent = myNode.parent();
         auto newNode = checkName( parent, parent.insert_child_after( newElementName.c_str(), myNode ), newElementName );
-        const auto result = XElementPtr{ new PugiElement{ newNode, myXDoc.lock() } };
-        update();
-        return result;
+        return makeElement( parent, newNode, keepAlive );
     }
 
 
@@ -395,9 +417,7 @@ namespace ezxml
         {
             return false;
         }
-        const auto result = myNode.remove_child( elementName.c_str() );
-        update();
-        return result;
+        return myNode.remove_child( elementName.c_str() );
     }
 
 
@@ -407,10 +427,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XAttributePtr{
-                new PugiAttribute{ checkName( myNode, myNode.append_attribute( name.c_str() ), name ), myNode, myXDoc.lock() } };
-        update();
-        return result;
+        return makeAttribute( myNode, checkName( myNode, myNode.append_attribute( name.c_str() ), name ), keepAlive );
     }
 
 
@@ -420,10 +437,7 @@ namespace ezxml
         const auto keepAlive = myXDoc.lock();
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        const auto result = XAttributePtr{
-                new PugiAttribute{ checkName( myNode, myNode.prepend_attribute( name.c_str() ), name ), myNode, myXDoc.lock() } };
-        update();
-        return result;
+        return makeAttribute( myNode, checkName( myNode, myNode.prepend_attribute( name.c_str() ), name ), keepAlive );
     }
 
 
@@ -442,7 +456,6 @@ namespace ezxml
             if( iter->getName() == it->name() )
             {
                 myNode.remove_attribute( *it );
-                update();
                 return;
             }
         }
-- 
2.43.0


From 7265a091834644e54503fe4f388e1cb8dcacd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:46 +0000
Subject: [PATCH 22/26] fix: elements added to an element whose text was set to
 nothing can be reached

---
 .../mx/ezxml/src/private/private/PugiElement.cpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 0263e3a..c471ba4 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -242,6 +242,11 @@ namespace ezxml
         }
         else if( xetype == XElementType::empty )
         {
+            if( value.empty() )
+            {
+                return;
+            }
+
             auto newnode = myNode.prepend_child( pugi::node_pcdata );
             if( !newnode.set_value( value.c_str() ) )
             {
@@ -253,6 +258,14 @@ namespace ezxml
         else if( xetype == XElementType::text )
         {
             auto it = myNode.begin();
+
+            // an empty text node would hide the children that are added after it
+            if( value.empty() && it->type() != pugi::node_element )
+            {
+                myNode.remove_child( *it );
+                return;
+            }
+
             checkAllocated( it->set_value( value.c_str() ) || it->type() == pugi::node_element );
             return;
         }
-- 
2.43.0


From cc100bd53769bd04bd4d63c21f70efea2cc88328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:10 +0000
Subject: [PATCH 23/26] fix: setting the text of an element leaves the
 processing instructions before it alone

---
 .../mx/ezxml/src/private/private/PugiElement.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index c471ba4..c384f35 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -257,16 +257,22 @@ namespace ezxml
         }
         else if( xetype == XElementType::text )
         {
+            // the text may be preceded by other nodes, for example processing instructions
             auto it = myNode.begin();
 
+            while( it->type() != pugi::node_pcdata && it->type() != pugi::node_cdata )
+            {
+                ++it;
+            }
+
             // an empty text node would hide the children that are added after it
-            if( value.empty() && it->type() != pugi::node_element )
+            if( value.empty() )
             {
                 myNode.remove_child( *it );
                 return;
             }
 
-            checkAllocated( it->set_value( value.c_str() ) || it->type() == pugi::node_element );
+            checkAllocated( it->set_value( value.c_str() ) );
             return;
         }
     }
-- 
2.43.0


From 90e4c8ec92514a789f88d7239fd15fcdceec1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 24/26] fix: a change of an XML declaration or document type
 that fails leaves it as it was

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index 7133f78..9f35309 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -355,14 +355,14 @@ namespace ezxml
                 EZXML_THROW( "the second attribute of the xml declaration node must be 'encoding'" );
             }
             auto attr = xmlDeclarationNode.insert_attribute_after( "standalone", *it );
-            if( myIsStandalone )
+            const bool isSet = compareCaseInsensitive( "standalone", attr.name() ) &&
+                               attr.set_value( myIsStandalone ? "yes" : "no" );
+            if( !isSet )
             {
-                throwIfFailed( attr.set_value( "yes" ) );
-            }
-            else
-            {
-                throwIfFailed( attr.set_value( "no" ) );
+                // a change that fails leaves the document as it was
+                xmlDeclarationNode.remove_attribute( attr );
             }
+            throwIfFailed( isSet );
             return;
         }
         else if( !value )
@@ -392,16 +392,15 @@ namespace ezxml
     void
     PugiDoc::setIsStandalone( bool value )
     {
+        const bool hadStandaloneAttribute = getHasStandaloneAttribute();
         setHasStandaloneAttribute( true );
         auto attr = getXmlDeclarationAttribute( "standalone" );
-        if( value )
-        {
-            throwIfFailed( attr.set_value( "yes" ) );
-        }
-        else
+        const bool isSet = attr.set_value( value ? "yes" : "no" );
+        if( !isSet && !hadStandaloneAttribute )
         {
-            throwIfFailed( attr.set_value( "no" ) );
+            getXmlDeclarationNode().remove_attribute( attr );
         }
+        throwIfFailed( isSet );
         myIsStandalone = value;
     }
 
@@ -473,9 +472,15 @@ namespace ezxml
     void
     PugiDoc::setDoctypeValue( const std::string& value )
     {
+        const bool hadDoctypeDeclaration = getHasDoctypeDeclaration();
         setHasDoctypeDeclaration( true );
         auto doctypeNode = getDoctypeNode();
-        throwIfFailed( doctypeNode.set_value( value.c_str() ) );
+        const bool isSet = doctypeNode.set_value( value.c_str() );
+        if( !isSet && !hadDoctypeDeclaration )
+        {
+            myDoc.remove_child( doctypeNode );
+        }
+        throwIfFailed( isSet );
     }
 
 
-- 
2.43.0


From 58abf5aa5b761ccb8cd53766fb5cdda6719ab337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 25/26] fix: a document type behind a processing instruction is
 seen

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 27 +++++--------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index 9f35309..459ebb8 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -565,29 +565,16 @@ namespace ezxml
     pugi::xml_node
     PugiDoc::getDoctypeNode() const
     {
-        if( myDoc.empty() )
+        // processing instructions may stand before the document type
+        for( auto it = myDoc.begin(); it != myDoc.end(); ++it )
         {
-            return pugi::xml_node{};
+            if( it->type() == pugi::node_doctype )
+            {
+                return *it;
+            }
         }
 
-        auto childrenIter = myDoc.begin();
-        if( childrenIter == myDoc.end() )
-        {
-            return pugi::xml_node{};
-        }
-        if( childrenIter->type() == pugi::node_declaration )
-        {
-            ++childrenIter;
-        }
-        if( childrenIter == myDoc.end() ||
-            childrenIter->type() != pugi::node_doctype )
-        {
-            return pugi::xml_node{};
-        }
-        else
-        {
-            return *childrenIter;
-        }
+        return pugi::xml_node{};
     }
 
 
-- 
2.43.0


From 6d322d0307e108b1a28402a65bccafa343015077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:50 +0000
Subject: [PATCH 26/26] fix: a text divided by comments or CDATA sections is
 read and replaced as a whole

---
 .../ezxml/src/private/private/PugiElement.cpp | 64 ++++++++++++++++---
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index c384f35..b6e18ae 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -58,6 +58,30 @@ namespace ezxml
         }
 
 
+        bool
+        isText( const pugi::xml_node& node )
+        {
+            return node.type() == pugi::node_pcdata || node.type() == pugi::node_cdata;
+        }
+
+
+        // comments and CDATA sections divide a text into several nodes
+        std::string
+        getText( const pugi::xml_node& element )
+        {
+            std::string text;
+
+            for( auto node = element.first_child(); node; node = node.next_sibling() )
+            {
+                if( isText( node ) )
+                {
+                    text += node.value();
+                }
+            }
+            return text;
+        }
+
+
         // an edit that fails leaves the tree as it was
         XElementPtr
         makeElement( pugi::xml_node parent, pugi::xml_node node, const XDocCPtr& xdoc )
@@ -135,7 +159,7 @@ namespace ezxml
             return XElementType::null;
         }
 
-        if( std::string{ myNode.text().as_string() }.length() > 0 )
+        if( getText( myNode ).length() > 0 )
         {
             return XElementType::text;
         }
@@ -209,7 +233,7 @@ namespace ezxml
         }
         else
         {
-            return std::string{ myNode.text().as_string() };
+            return getText( myNode );
         }
     }
 
@@ -258,21 +282,43 @@ namespace ezxml
         else if( xetype == XElementType::text )
         {
             // the text may be preceded by other nodes, for example processing instructions
-            auto it = myNode.begin();
+            auto first = myNode.first_child();
 
-            while( it->type() != pugi::node_pcdata && it->type() != pugi::node_cdata )
+            while( !isText( first ) )
             {
-                ++it;
+                first = first.next_sibling();
             }
 
             // an empty text node would hide the children that are added after it
-            if( value.empty() )
+            if( !value.empty() )
             {
-                myNode.remove_child( *it );
-                return;
+                // not every text can be written as a CDATA section
+                const bool isSection = first.type() == pugi::node_cdata;
+                auto node = isSection ? myNode.insert_child_before( pugi::node_pcdata, first ) : first;
+
+                if( !node.set_value( value.c_str() ) )
+                {
+                    if( isSection )
+                    {
+                        myNode.remove_child( node );
+                    }
+                    checkAllocated( false );
+                }
+
+                first = isSection ? first : first.next_sibling();
             }
 
-            checkAllocated( it->set_value( value.c_str() ) );
+            // the other parts of the previous text
+            while( first )
+            {
+                const auto next = first.next_sibling();
+
+                if( isText( first ) )
+                {
+                    myNode.remove_child( first );
+                }
+                first = next;
+            }
             return;
         }
     }
-- 
2.43.0

