From c8d847fee7f7cf9481d21013523b8784fa3cc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 01/67] fix: decoding a value from text never writes beyond the
 given limit

---
 src/bin_xml_types.cpp | 49 ++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..7a20f15 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -500,6 +500,19 @@ static int32_t str2dec(const char *src,int decimals)
     return value;
 }
 
+static bool XBT_AlignAndFit(XML_Binary_Type type,int size,char **_wp,const char *limit)
+// Aligns write pointer for type and checks, that size bytes can be written there.
+{
+    int align_size = XBT_Align(type);
+    if (align_size == 4)
+        AA(*_wp);
+    else if (align_size == 8)
+        AA8(*_wp);
+    if (*_wp <= limit && limit - *_wp >= size) return true;
+    fprintf(stderr,"%s: no space for %d bytes of value!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],size);
+    return false;
+}
+
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
 {
     switch (type)
@@ -511,39 +524,39 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             break;
             
         case XBT_INT32:
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = atoi(src);
             *_wp += sizeof(int32_t);
             return true;
         
         case XBT_INT32_DECI:
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_CENTI:     
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MILI:     
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MICRO:     
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_NANO:     
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
             *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
             *_wp += sizeof(int32_t);
             return true;
         case XBT_IPv4:     
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(uint32_t),_wp,limit)) return false;
                 uint32_t ip_addr;
                 if (ScanIPv4(src,ip_addr))
                 {
@@ -560,7 +573,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             {
                 int64_t v;
                 ASSERT_NO_RET_FALSE(2022,ScanInt64(src,v));
-                AA8(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(v),_wp,limit)) return false;
                 *reinterpret_cast<int64_t*>(*_wp) = v;
                 *_wp += sizeof(int64_t);
                 return true;
@@ -569,47 +582,49 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             {
                 uint64_t v;
                 ASSERT_NO_RET_FALSE(2124,ScanUInt64(src,v));
-                AA8(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(v),_wp,limit)) return false;
                 *reinterpret_cast<uint64_t*>(*_wp) = v;
                 *_wp += sizeof(uint64_t);
                 return true;
             }
             
         case XBT_STRING:
+            if (!XBT_AlignAndFit(type,strlen(src)+1,_wp,limit)) return false;
             strcpy(*_wp,src);
             *_wp += strlen(src)+1;
             return true;
         case XBT_GUID:
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,16,_wp,limit)) return false;
                 int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),16);
                 *_wp += scanned;
                 return scanned == 16;
             }
         case XBT_SHA1:
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,20,_wp,limit)) return false;
                 int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),20);
                 *_wp += scanned;
                 return scanned == 20;
             }
         case XBT_HEX:
             {
-                AA(*_wp);
+                int max_size = (strlen(src)+1) >> 1; // cannot be longer
+                if (!XBT_AlignAndFit(type,sizeof(int32_t)+max_size,_wp,limit)) return false;
                 int32_t *size = reinterpret_cast<int32_t*>(*_wp);
                 *_wp += sizeof(int32_t);
-                *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),limit - *_wp);
+                *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),max_size);
                 *_wp += *size;
                 return true;
             }
         case XBT_FLOAT:
-            AA(*_wp);
+            if (!XBT_AlignAndFit(type,sizeof(float),_wp,limit)) return false;
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
         case XBT_UNIX_TIME:
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(uint32_t),_wp,limit)) return false;
                 uint32_t tm0;
                 if (!ScanUnixTime(src,tm0))
                 {
@@ -622,7 +637,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(int64_t),_wp,limit)) return false;
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
@@ -635,7 +650,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_DATE:
             {
-                AA(*_wp);
+                if (!XBT_AlignAndFit(type,sizeof(int32_t),_wp,limit)) return false;
                 int32_t dt0;
                 if (!ScanUnixDate(src,dt0))
                 {
-- 
2.43.0


From 4f350ef4e2bdc81cae7594ea7e4484e77f0e333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 02/67] fix: UINT32, DOUBLE and IPv6 values can be scanned and
 printed, FLOAT keeps its value

---
 src/bin_xml_types.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 7a20f15..627b80e 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -2,6 +2,7 @@
 #include <binary_xml/macros.h>
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
+#include <arpa/inet.h> // inet_pton
 #include <assert.h>
 
 namespace pklib_xml
@@ -588,6 +589,15 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 return true;
             }
             
+        case XBT_UINT32:
+            {
+                uint64_t v;
+                if (!ScanUInt64(src,v) || (v >> 32) != 0) return false;
+                if (!XBT_AlignAndFit(type,sizeof(uint32_t),_wp,limit)) return false;
+                *reinterpret_cast<uint32_t*>(*_wp) = static_cast<uint32_t>(v);
+                *_wp += sizeof(uint32_t);
+                return true;
+            }
         case XBT_STRING:
             if (!XBT_AlignAndFit(type,strlen(src)+1,_wp,limit)) return false;
             strcpy(*_wp,src);
@@ -622,6 +632,16 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            if (!XBT_AlignAndFit(type,sizeof(double),_wp,limit)) return false;
+            *reinterpret_cast<double*>(*_wp) = atof(src);
+            *_wp += sizeof(double);
+            return true;
+        case XBT_IPv6:
+            if (!XBT_AlignAndFit(type,16,_wp,limit)) return false;
+            if (inet_pton(AF_INET6,src,*_wp) != 1) return false;
+            *_wp += 16;
+            return true;
         case XBT_UNIX_TIME:
             {
                 if (!XBT_AlignAndFit(type,sizeof(uint32_t),_wp,limit)) return false;
@@ -746,6 +766,9 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
+        case XBT_IPv6:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -984,6 +1007,22 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             offset += sizeof(float);
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
+            if (strtof(dst,nullptr) != *reinterpret_cast<const float*>(data)) // value would be lost
+                snprintf(dst,dst_size,"%.9g",*reinterpret_cast<const float*>(data));
+            return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%f",*reinterpret_cast<const double*>(data));
+            if (strtod(dst,nullptr) != *reinterpret_cast<const double*>(data)) // value would be lost
+                snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data));
+            return strlen(dst);
+        case XBT_IPv6:
+            if (offset > 0) return 0;
+            offset += 16;
+
+            if (inet_ntop(AF_INET6,data,dst,dst_size) == nullptr) return 0;
             return strlen(dst);
         case XBT_UNIX_TIME:
             {
-- 
2.43.0


From dbeeb931c6fb77c0e95c58640bdaf7dc793eaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 03/67] fix: chunked printing of INT64, UINT64, decimal,
 TIME64, HEX and GUID values is exact

---
 src/bin_xml_types.cpp | 86 ++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 63 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 627b80e..5fb824a 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -817,11 +817,11 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
                 while (size > 0)
                 {
                     int line_size = MIN(size,16);
+                    if (d != dst) *(d++) = '\n'; // line separator
                     Hex2Str(src,line_size,d);
 
                     src += line_size;
                     d += line_size*2;
-                    *(d++) = '\n';
                     size -= line_size;
                 }
                 *(d++) = '\0';
@@ -892,7 +892,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                snprintf(dst,dst_size,"%s%d.%d",(V < 0 ? "-" : ""),abs(V / 10),abs(V % 10));
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -901,7 +901,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                snprintf(dst,dst_size,"%s%d.%02d",(V < 0 ? "-" : ""),abs(V / 100),abs(V % 100));
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -910,7 +910,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                snprintf(dst,dst_size,"%s%d.%03d",(V < 0 ? "-" : ""),abs(V / 1000),abs(V % 1000));
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -919,7 +919,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                snprintf(dst,dst_size,"%s%d.%06d",(V < 0 ? "-" : ""),abs(V / 1000000),abs(V % 1000000));
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -928,7 +928,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%d.%09d",(V < 0 ? "-" : ""),abs(V / 1000000000),abs(V % 1000000000));
                 return strlen(dst);
             }
 
@@ -955,30 +955,8 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int64_t);
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                if (neg) *(--d) = '-';
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%lld",static_cast<long long>(value));
+                return strlen(dst);
             }
         case XBT_UINT64:
             {
@@ -986,21 +964,8 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(uint64_t);
 
                 uint64_t value = *reinterpret_cast<const uint64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%llu",static_cast<unsigned long long>(value));
+                return strlen(dst);
             }
         case XBT_FLOAT:
             if (offset > 0) return 0;
@@ -1055,12 +1020,14 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 //                LOG("TIME64(%p) --> %08X:%08X",data, *reinterpret_cast<const uint32_t*>(data), *(reinterpret_cast<const uint32_t*>(data)+1));
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
-                time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) msec += 1000; // before 1970
+                time_t tm0 = (time_t)((value-msec)/1000);
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
-                gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                if (gmtime_r(&tm0,&tm1) == nullptr) return 0; // year cannot be represented
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
@@ -1097,28 +1064,21 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
-                Hex2Str(src,size,dst);
+                char *d = dst;
+                if (offset > 0) *(d++) = '\n'; // new line of 16 bytes
+                Hex2Str(src,size,d);
 
-                int hex_len = strlen(dst);
-                dst[hex_len]   = '\n';
-                dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return strlen(dst);
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset > 0) return 0;
+                GUID2Str(data,dst); // 8-4-4-4-12
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From a8d6b045b9cd3d40f0413845c55df0272f9db929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 04/67] fix: values, which would be changed by their detected
 binary type, are stored as string

---
 include/binary_xml/bin_xml_types.h |  3 ++-
 src/bin_xml_creator.cpp            |  5 +++--
 src/bin_xml_types.cpp              | 28 ++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..3b6d3bb 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
@@ -109,6 +109,7 @@ int             XBT_Align   (XML_Binary_Type type);
 bool            XBT_Copy    (const char *src,XML_Binary_Type type,int size,char **_wp,char *limit);
 bool            XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
 int             XBT_SizeFromString(const char *src,XML_Binary_Type type);
+bool            XBT_IsExact (XML_Binary_Type type,const char *value); // can binary representation give the same text back?
 
 bool            XBT_Equal   (XML_Binary_Data_Ref A,XML_Binary_Data_Ref B);
 
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..32e337a 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -864,6 +864,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
         else
         {
             type = XBT_Detect(value);
+            if (!XBT_IsExact(type,value)) type = XBT_STRING; // never change value
             *((*_wp)++) = type;
             if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
             {   
@@ -970,9 +971,9 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
+    if (!XBT_IsExact(type,param_value)) type = XBT_STRING; // never change value
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (XBT_IS_4(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 5fb824a..1405f29 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -732,6 +732,34 @@ int XBT_SizeFromString(const char *src,XML_Binary_Type type)
     return false;
 }
 
+bool XBT_IsExact(XML_Binary_Type type,const char *value)
+// Value is converted to binary representation and back and must not be changed
+{
+    if (value == nullptr) return type == XBT_NULL;
+    if (type == XBT_STRING) return true;
+    if (type == XBT_NULL) return *value == '\0';
+    if (type == XBT_VARIANT || type == XBT_UNKNOWN || type >= XBT_LAST) return false;
+
+    int len = strlen(value);
+    int buffer_size = len+64;
+    uint64_t *buffer = new uint64_t[(buffer_size >> 3)+1]; // aligned
+    char *data = reinterpret_cast<char *>(buffer);
+    char *wp = data;
+
+    bool exact = XBT_FromString(value,type,&wp,data+buffer_size);
+    int done = 0;
+    for(int offset = 0;exact;)
+    {
+        char text[MIN_OUT_BUFFER_SIZE*2];
+        int size = XBT_ToStringChunk(type,data,offset,text,sizeof(text));
+        if (size <= 0) break;
+        exact = (size <= len-done && memcmp(value+done,text,size) == 0);
+        done += size;
+    }
+    delete [] buffer;
+    return exact && done == len;
+}
+
 const char *XBT_ToString(XML_Binary_Type type,const char *data)
 {
     int align_size = XBT_Align(type);
-- 
2.43.0


From 7a28d66f58cb182dfebde128bec2236d83aeb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 05/67] fix: empty attributes, CDATA and text after comments
 are read from XML source

---
 src/bin_xml_plugin.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..21e67c0 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -43,7 +43,7 @@ bool Bin_xml_plugin::Initialize()
 {
     if (!Bin_src_plugin::Initialize()) return false;
 // loading xml
-    doc = xmlReadFile(filename, NULL, 0);
+    doc = xmlReadFile(filename, NULL, XML_PARSE_NOCDATA); // CDATA are part of text
     if (doc == nullptr)
     {
         std::cerr << "error: could not parse file " << filename << "\n";
@@ -74,14 +74,16 @@ const char *Bin_xml_plugin::getNodeName(void *element)
 const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
-    if (X->children == nullptr) return nullptr;
-    if (X->children->type != XML_TEXT_NODE) return nullptr;
-    const char *value = reinterpret_cast<const char *>(X->children->content);
-    if (value == nullptr) return nullptr;
+    for(xmlNode *T = X->children;T != nullptr;T = T->next) // text can follow comments or elements
+    {
+        if (T->type != XML_TEXT_NODE) continue;
+        const char *value = reinterpret_cast<const char *>(T->content);
+        if (value == nullptr) continue;
 //  if (X->childcount > 0) // is there nonspace value?
-    while(*value != '\0' && isspace(*value)) value++;
-    if (*value == '\0') return nullptr;
-    return value;   
+        while(*value != '\0' && isspace(static_cast<unsigned char>(*value))) value++;
+        if (*value != '\0') return value;
+    }
+    return nullptr;
 }
 //-------------------------------------------------------------------------------------------------
 
@@ -126,10 +128,16 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
-        assert(A->children->type == XML_TEXT_NODE);
-        const char *value = reinterpret_cast<const char*>(A->children->content);
-    
-        on_param(reinterpret_cast<const char*>(A->name),value,element,userdata);
+        if (A->children == nullptr) // empty value
+            on_param(reinterpret_cast<const char*>(A->name),"",element,userdata);
+        else if (A->children->type == XML_TEXT_NODE && A->children->next == nullptr)
+            on_param(reinterpret_cast<const char*>(A->name),reinterpret_cast<const char*>(A->children->content),element,userdata);
+        else // value contains entities
+        {
+            xmlChar *value = xmlNodeListGetString(doc,A->children,1);
+            on_param(reinterpret_cast<const char*>(A->name),(value != nullptr ? reinterpret_cast<const char*>(value) : ""),element,userdata);
+            xmlFree(value);
+        }
     }
 }
 
-- 
2.43.0


From df960c7a76a599c32c75a62e3f2776c7df4ffe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 06/67] fix: markup and control characters are escaped in
 printed XML

---
 include/binary_xml/bin_xml_types.h |  3 ++-
 src/bin_xml.cpp                    | 20 ++++++++++----------
 src/bin_xml_creator.cpp            | 11 ++---------
 src/bin_xml_types.cpp              | 27 ++++++++++++++++++---------
 4 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 3b6d3bb..ec7c873 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -117,7 +117,8 @@ const char     *XBT_ToString(XML_Binary_Type type,const char *data);
 int             XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size);
     
 void            XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os);
-void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os);
+void            XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute = false);
+void            XBT_EscapeXML(const char *text,int len,std::ostream &os,bool attribute = false);
 
 //-------------------------------------------------------------------------------------------------
 
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..8bbc6b4 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -542,8 +542,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         for(int offset = 0;;)
         {
             int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
+            if (len <= 0) break;
+            XBT_EscapeXML(buffer,len,os,true);
         }
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
@@ -576,23 +576,23 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         for(int offset = 0;;)
         {
             int len = getStringChunk(offset,buffer,sizeof(buffer));
-            if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
+            if (len <= 0) break;
+            XBT_EscapeXML(buffer,len,os);
         }
-        os << "\n";    // TODO: escape value!
+        os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
     }
     else
     {
         int offset = 0;
-        if (getStringChunk(offset,buffer,sizeof(buffer)) == 0)
+        int len = getStringChunk(offset,buffer,sizeof(buffer));
+        if (len <= 0)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
-                while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                os << ">";
+                for(;len > 0;len = getStringChunk(offset,buffer,sizeof(buffer)))
+                    XBT_EscapeXML(buffer,len,os);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 32e337a..8e7c099 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -163,7 +163,7 @@ void Bin_src_plugin::s_OnBinParam2Stream(const char *param_name,int param_id,XML
 
     CTX->os << " " << param_name << "=\"";
     // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-    XBT_ToXMLStream(type,param_value,CTX->os);
+    XBT_ToXMLStream(type,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
@@ -172,14 +172,7 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t *CTX = reinterpret_cast<BIN_SRC_PLUGIN2STREAM_CONTEXT_t *>(userdata);
 
     CTX->os << " " << param_name << "=\"";
-    for(const char *c = param_value;*c != '\0';c++)
-    {
-        if (*c == '<') CTX->os << "&lt;";
-        else if (*c == '>') CTX->os << "&gt;";
-        else if (*c == '&') CTX->os << "&amp;";
-        else if (*c == '\"') CTX->os << "&quot;";
-        else CTX->os << *c;
-    }
+    XBT_EscapeXML(param_value,strlen(param_value),CTX->os,true);
     CTX->os << "\"";
 }
 
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 1405f29..5b5790b 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1136,7 +1136,23 @@ void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
     }
 }
 
-void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
+void XBT_EscapeXML(const char *text,int len,std::ostream &os,bool attribute)
+// XML parser would normalize white characters in attributes and \r everywhere
+{
+    for(int i = 0;i < len;i++)
+    {
+        if (text[i] == '<') os << "&lt;";
+        else if (text[i] == '>') os << "&gt;";
+        else if (text[i] == '&') os << "&amp;";
+        else if (text[i] == '\"') os << "&quot;";
+        else if (text[i] == '\r') os << "&#13;";
+        else if (attribute && text[i] == '\n') os << "&#10;";
+        else if (attribute && text[i] == '\t') os << "&#9;";
+        else os << text[i];
+    }
+}
+
+void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool attribute)
 {
     char buffer[4096+1];
     int offset = 0;
@@ -1145,14 +1161,7 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
         // int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
         int len = XBT_ToStringChunk(type,data,offset,buffer,sizeof(buffer));
         if (len == 0) break;
-        for(int i = 0;i < len;i++)
-        {
-            if (buffer[i] == '<') os << "&lt;";
-            else if (buffer[i] == '>') os << "&gt;";
-            else if (buffer[i] == '&') os << "&amp;";
-            else if (buffer[i] == '\"') os << "&quot;";
-            else os << buffer[i];
-        }
+        XBT_EscapeXML(buffer,len,os,attribute);
     }
 }
 
-- 
2.43.0


From 9f003ded7aa2f81813699df0051aafa605cd71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 07/67] fix: output buffer of creator is big enough for any
 document, cleared and checked

---
 include/binary_xml/bin_xml_creator.h |  12 +++
 src/bin_xml_creator.cpp              | 114 ++++++++++++++++++++++++---
 2 files changed, 113 insertions(+), 13 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..a0ab773 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -77,6 +77,12 @@ public:
 
 typedef Bin_src_plugin* (*Bin_src_plugin_selector_t)(const char *filename,Bin_xml_creator *bin_xml_creator);
 
+struct MeasuringNodes
+{
+    Bin_xml_creator *creator;
+    int64_t         size;
+};
+
 class Bin_xml_creator
 {
 public:
@@ -122,6 +128,12 @@ protected:
         static void SecondPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
         static void SecondPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
         
+        bool AllocData(int64_t size);
+        int64_t MeasureNode(void *element);
+        static void XMeasureNodeEvent(void *element,void *userdata);
+        static void XMeasureBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
+        static void XMeasureParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata);
+
         int32_t FillData();
             const char *WriteChildSymbols(char **_wp,tag_name_id_t tag_name,int symbol_table);
             const char *WritePayloadContainer(char **_wp,tag_name_id_t tag_name,void *root);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 8e7c099..e5e4f41 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -304,9 +304,9 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src_allocated = false;
     this->target = target;
     if (target == XBTARGET_XB)
-        this->dst = AllocFilenameChangeExt(dst,".xb");
+        this->dst = AllocFilenameChangeExt(src->getFilename(),".xb");
     else
-        this->dst = AllocFilenameChangeExt(dst,".xbw");
+        this->dst = AllocFilenameChangeExt(src->getFilename(),".xbw");
     this->dst_file = -1; 
     this->data = nullptr;
     this->dst_file = -1; 
@@ -344,6 +344,8 @@ Bin_xml_creator::~Bin_xml_creator()
         close(dst_file);
         dst_file = -1; 
     }
+    free(data);
+    data = nullptr;
     if (dst != nullptr)
         delete [] dst; 
 }
@@ -387,16 +389,15 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    int64_t needed = 1024 + strlen(src->getFilename()) + MeasureNode(root);
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            needed += sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored) + strlen(symbol_table[t][i]) + 1;
+    if (!AllocData(needed)) return false;
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
-    if (this->data == nullptr)
-    {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
-        return false;
-    }
     this->dst_file_size = FillData();
+    if (this->dst_file_size < 0) return false; // some node cannot be written
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -435,6 +436,81 @@ bool Bin_xml_creator::Make_xb()
     return (written == dst_file_size);
 }
 
+bool Bin_xml_creator::AllocData(int64_t size)
+// output buffer for size bytes, cleared - also padding bytes will be written
+{
+    if (size <= 0 || size > INT32_MAX)
+    {
+        std::cerr << "error: output too big (" << size << "B)\n";
+        return false;
+    }
+    free(data);
+    data_size_allocated = size;
+    data = reinterpret_cast<char *>(calloc(1,data_size_allocated));
+    if (data == nullptr)
+    {
+        std::cerr << "error: " << strerror(errno) << " while calloc(" << size << ")\n";
+        return false;
+    }
+    return true;
+}
+
+static int64_t s_SizeLimit(XML_Binary_Type type,const char *value)
+// upper limit of space needed for binary value with alignment
+{
+    if (value == nullptr || type == XBT_NULL) return 0;
+    int size = 0;
+    if (type == XBT_STRING)
+        size = strlen(value);
+    else if (XBT_IS_VARSIZE(type))
+    {
+        AA(value);
+        size = *reinterpret_cast<const int32_t*>(value);
+    }
+    return XBT_Size2(type,size) + 16;
+}
+
+int64_t Bin_xml_creator::MeasureNode(void *element)
+// upper limit of space needed for element with all children
+{
+    MeasuringNodes M = {this,0};
+    XMeasureNodeEvent(element,&M);
+    return M.size;
+}
+
+void Bin_xml_creator::XMeasureNodeEvent(void *element,void *userdata)
+{
+    MeasuringNodes *M = reinterpret_cast<MeasuringNodes*>(userdata);
+    Bin_src_plugin *src = M->creator->src;
+
+    M->size += sizeof(XML_Item) + sizeof(relative_ptr_t) + 1/*type*/ + 4/*align*/;
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    const char *bin_value = src->getNodeBinValue(element,type,size);
+    if (type != XBT_UNKNOWN)
+        M->size += s_SizeLimit(type,bin_value);
+    else
+    {
+        const char *value = src->getNodeValue(element);
+        if (value != nullptr)
+            M->size += strlen(value) + 32; // no binary value is bigger
+    }
+    if (!src->ForAllBinParams(XMeasureBinParamsEvent,element,userdata))
+        src->ForAllParams(XMeasureParamsEvent,element,userdata);
+    src->ForAllChildren(XMeasureNodeEvent,element,userdata);
+}
+
+void Bin_xml_creator::XMeasureBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
+{
+    reinterpret_cast<MeasuringNodes*>(userdata)->size += sizeof(XML_Param_Description) + s_SizeLimit(type,param_value);
+}
+
+void Bin_xml_creator::XMeasureParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata)
+{
+    reinterpret_cast<MeasuringNodes*>(userdata)->size += sizeof(XML_Param_Description) + 32 + (param_value == nullptr ? 0 : strlen(param_value));
+}
+
 bool Bin_xml_creator::CopySymbolTable() 
 {
     // has special function for symbol table?
@@ -509,9 +585,12 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+    ASSERT_NO_RET_FALSE(2136,data != nullptr); // Make_xb() must be called first
+    if (!AllocData(64 + MeasureNode(element))) return false;
+
     char *wp = data+file_align;
     AA(wp);
-    this->WriteNode(&wp,element);
+    if (this->WriteNode(&wp,element) == nullptr) return false;
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
@@ -704,7 +783,9 @@ int32_t Bin_xml_creator::FillData()
 // children
     children[0] = WriteChildSymbols(&_wp,XTNR_TAG_SYMBOLS,SYMBOL_TABLE_NODES) - _x;
     children[1] = WriteChildSymbols(&_wp,XTNR_PARAM_SYMBOLS,SYMBOL_TABLE_PARAMS) - _x;
-    children[2] = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot()) - _x;
+    const char *payload = WritePayloadContainer(&_wp,XTNR_PAYLOAD,src->getRoot());
+    if (payload == nullptr) return -1;
+    children[2] = payload - _x;
 
 //---------------------------
     X->length = _wp-data; // will set later
@@ -778,6 +859,7 @@ struct XStoreParamsData {
     relative_ptr_t      *children;
     char            **_wp;
     const char      *_x;
+    bool            failed;
 };
 
 const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_name,void *root)
@@ -797,7 +879,9 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
 // data
     *((*_wp)++) = XBT_NULL; // no data
 
-    children[0] = WriteNode(_wp,root) - _x;
+    const char *node = WriteNode(_wp,root);
+    if (node == nullptr) return nullptr;
+    children[0] = node - _x;
     assert((children[0] & 3) == 0);
 
 //-------------------------------------------------------------------------------------------------
@@ -830,6 +914,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     xstore_data.params = reinterpret_cast<XML_Param_Description*>(*_wp);
     xstore_data._wp = _wp;
     xstore_data._x = _x;
+    xstore_data.failed = false;
     *_wp += sizeof(XML_Param_Description)*X->paramcount;
 
     xstore_data.children = reinterpret_cast<relative_ptr_t*>(*_wp);
@@ -870,6 +955,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     if (!src->ForAllBinParams(XStoreBinParamsEvent,element,&xstore_data))
         src->ForAllParams(XStoreParamsEvent,element,&xstore_data);
     src->ForAllChildren(XStoreChildrenEvent,element,&xstore_data);
+    if (xstore_data.failed) return nullptr;
 
     X->length = *_wp - _x;
     assert(X->length > 0);
@@ -985,7 +1071,9 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
 void Bin_xml_creator::XStoreChildrenEvent(void *element,void *userdata)
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
-    *(xstore_data->children++) = xstore_data->creator->WriteNode(xstore_data->_wp,element) - xstore_data->_x;
+    const char *node = xstore_data->creator->WriteNode(xstore_data->_wp,element);
+    if (node == nullptr) { xstore_data->failed = true;return; }
+    *(xstore_data->children++) = node - xstore_data->_x;
 }
 
 void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
-- 
2.43.0


From 85faa92615fbaffa49e3fb22f023d6b7ee61a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 08/67] fix: sorting of many nodes does not overflow stack

---
 src/bin_xml_packer.cpp |  3 ++-
 src/missings.cpp       | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..2c88991 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -159,7 +159,7 @@ void Bin_xml_packer::MarkReferences()
     DBG(std::cout << "==================" << computed_hashes << " OK\n");
 
 // sort all
-    SN.index = reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
+    SN.index = new int[total_node_count];
     for(int i = 0;i < total_node_count;i++) SN.index[i] = i;
     mergesort_r2
        (reinterpret_cast<void*>(SN.index),
@@ -240,6 +240,7 @@ void Bin_xml_packer::MarkReferences()
     }
     delete [] SN.node_links;
     delete [] SN.node_hashes;
+    delete [] SN.index;
 }
 
 char *Bin_xml_packer::PackNode(char **_wp,char *_X)
diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..7e03fd1 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -1,5 +1,7 @@
 #include <binary_xml/missings.h>
 
+#include <assert.h>
+#include <stdlib.h>
 #include <string.h>
 #include <arpa/inet.h>
 #include <fcntl.h>
@@ -51,7 +53,10 @@ void mergesort_r2(void *base, int nmemb, int size,
                   void *arg)
 {
     void *src = base;
-    void *dst = alloca(size*nmemb);
+    if (nmemb <= 1) return; // nothing to sort
+    void *buffer = malloc(static_cast<size_t>(size)*nmemb); // can be too big for stack
+    assert(buffer != nullptr);
+    void *dst = buffer;
 #define SRC(idx) ((char*)src + (size)*(idx))
 #define DST(idx) ((char*)dst + (size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
@@ -106,7 +111,8 @@ void mergesort_r2(void *base, int nmemb, int size,
 #undef SRC
 #undef DST
     if (dst == base)
-        memcpy(base,src,size * nmemb);
+        memcpy(base,src,static_cast<size_t>(size) * nmemb);
+    free(buffer);
 }
 
 
-- 
2.43.0


From efc007d0a7fefb432583e3bb1ca0b456eedcb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 09/67] fix: qsort_r2 keeps its pivot while partitioning

---
 src/missings.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 7e03fd1..5bcd1d0 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -23,27 +23,30 @@ void qsort_r2(void *base, int nmemb, int size,
     if (nmemb < 2) return;
 
     char *temp = (char*)alloca(size);
+    char *test = (char*)alloca(size); // copy of pivot - original can be moved
 #define BASE(idx) ((char*)base + (size)*(idx))
-
-    int test = nmemb / 2;
+    memcpy(test,BASE(nmemb / 2),size);
 
     int left = 0;
     int right = nmemb - 1;
-    for(;;)
+    while (left <= right)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        while (compar(BASE(left),test,arg) < 0) left++;
+        while (compar(BASE(right),test,arg) > 0) right--;
 
-        if (left >= right) break;
+        if (left > right) break;
 
-        memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
-        memcpy(BASE(right),temp,size);
+        if (left < right)
+        {
+            memcpy(temp,BASE(left),size);
+            memcpy(BASE(left),BASE(right),size);
+            memcpy(BASE(right),temp,size);
+        }
         left++;
         right--;
     }
-
-    qsort_r2(base, left,                size,compar,arg);
+// items 0..right are not bigger and items left..nmemb-1 are not smaller than pivot
+    qsort_r2(base, right + 1,           size,compar,arg);
     qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
-- 
2.43.0


From 9dd587672880e3b8e04bcf13aca7da336a279e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 10/67] fix: string attributes of built documents are fully
 stored into .xb

---
 src/bin_xml_creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e5e4f41..298e488 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -999,13 +999,15 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         AA(param_value);
         content_size = *reinterpret_cast<const int32_t*>(param_value);
     }
+    else if (type == XBT_STRING)
+        content_size = strlen(param_value);
     else
     {
         int size = XBT_Size2(type,0); // empty size of type
         char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
         // bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
         
-        if (type != XBT_STRING && size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+        if (size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
         { // store parameter value directly to params.data
             ASSERT_NO_DO_NOTHING(1207,in_place_wp == reinterpret_cast<char*>(&xstore_data->params->data) + 4);
             xstore_data->params->type = type;
-- 
2.43.0


From 2caae04393f2061e440bee368f2e918fb0f20662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 11/67] fix: packing keeps alignment of 8 bytes values

---
 src/bin_xml_packer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 2c88991..e63642e 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -253,6 +253,11 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _x is pointer to XML_Item in destionation data2 space
 {
     AA(*_wp);
+    if (((*_wp - data2) & 7) != ((_X - data) & 7)) 
+    { // values aligned to 8 bytes must stay aligned
+        memset(*_wp,0,4);
+        *_wp += 4;
+    }
     char *_x = *_wp;
     
     XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
-- 
2.43.0


From 4cd49e55f63894d046403b4b678968d6972786b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 12/67] fix: conversion to .xbw keeps values which do not fit
 type of their name

---
 src/bin_xml_creator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 298e488..e4a5f64 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1134,6 +1134,10 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (from_text) // text analyse solution when binary is not available
     {
         tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        if (value == nullptr || *value == '\0')
+            tag_type = XBT_NULL; // no value
+        else if (!XBT_IsExact(tag_type,value))
+            tag_type = XBT_STRING; // never change value
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
-- 
2.43.0


From 0d48a67aa8daa41cf5bf4045095441cbf9f3c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 13/67] fix: symbol tables of .xbw handle empty tables, ids
 over 127 and names of any length

---
 src/bin_write_plugin.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..65d6ac8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1230,6 +1230,12 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 #undef WORK_ID
 #define WORK_ID pool->getDocTypeName()
 
+static int s_SymbolID(const char *p)
+// symbol starts with 16 bit id
+{
+    return *reinterpret_cast<const int16_t*>(p);
+}
+
 int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_t *offset,XML_Binary_Type *type)
 {
     ASSERT_NO_RET_N1(1969,pool != nullptr);
@@ -1246,8 +1252,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = s_SymbolID(p);
+            p += 2;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1267,6 +1273,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
             // skip rest of identifier
             while(p < p_limit && *p != '\0') p++; // find end of string
             if (p >= p_limit) return -1; // not found
+            p++; // skip ASCII.NUL
 
             AA(p); // round 4B
             // next id
@@ -1318,7 +1325,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = s_SymbolID(p);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1356,7 +1363,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = s_SymbolID(p);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1400,8 +1407,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = s_SymbolID(p);
+            p += 2;
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
@@ -1437,7 +1444,13 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 {
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
-    if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
+    if (index == 0 && names_offset != 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
+    if (size <= 0)
+    { // empty table can start anywhere
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
                 __FUNCTION__,pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,
-- 
2.43.0


From b6cbac340723ce74ded064e4fda81e37aaf9d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 14/67] fix: reader checks everything in .xb file before use,
 damaged files are refused

---
 src/bin_xml.cpp | 229 ++++++++++++++++++++++++++++++------------------
 1 file changed, 143 insertions(+), 86 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 8bbc6b4..38c565a 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,92 +22,118 @@ namespace pklib_xml
 {
 
 
-bool XML_Item::Check(XB_reader *R,bool recursive) 
-// I want to check everything to be 100% sure, data are ok
+static bool CheckValue(int type,const char *data,const char *limit)
+// Whole binary value must be stored in range data..limit
 {
-    if (THIS_IS_NULL) return false;  // NULL is not ok
-    if (R == nullptr) return false;
-    if (this < R->doc) return false; // out of space
-    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    
-    const char *p = reinterpret_cast<const char*>(this);
-    const char *p0 = p;
-    AA(p);
-//    std::cout << "XML_Item::Check " << (void*)this << "\n";
-    if (p != p0)
+    if (type == XBT_NULL) return true; // nothing is stored
+    if (type < XBT_NULL || type >= XBT_LAST || type == XBT_VARIANT || type == XBT_UNKNOWN) return false;
+
+    int align = XBT_Align(static_cast<XML_Binary_Type>(type));
+    if (align == 4) 
+        AA(data);
+    else if (align == 8)
+        AA8(data);
+    if (data > limit) return false;
+
+    size_t space = limit-data;
+    if (type == XBT_STRING) return memchr(data,0,space) != nullptr; // must be terminated
+    if (XBT_IS_4(type)) return space >= 4;
+    if (!XBT_IS_VARSIZE(type)) return space >= (size_t)XBT_FIXEDSIZE(type);
+
+    if (space < sizeof(int32_t)) return false;
+    int32_t size = *reinterpret_cast<const int32_t*>(data);
+    if (size < 0 || (size_t)size > space-sizeof(int32_t)) return false;
+    return type != XBT_BLOB_STRING || memchr(data+sizeof(int32_t),0,size) != nullptr;
+}
+
+static bool CheckNode(const XML_Item *X,XB_reader *R,const char *begin,const char *end)
+// Everything stored in node and addresses of it's children are checked. All must be in range begin..end.
+{
+    const char *x = reinterpret_cast<const char *>(X);
+    if (x < begin || x > end || (size_t)(end-x) < sizeof(XML_Item)) return false; // out of space
+    if (((x-reinterpret_cast<const char *>(R->doc)) & 3) != 0)
     {
-        std::cout << ANSI_RED_BRIGHT "XML_Item " << (void*)this << " is not aligned!" ANSI_RESET_LF;
+        std::cout << ANSI_RED_BRIGHT "XML_Item " << (const void*)X << " is not aligned!" ANSI_RESET_LF;
         return false;
     }
-    
+    if (X->length < 0 || end-x < X->length) return false;
+
 // name check
-    if (name <= XTNR_LAST) return false;
-    if (name >= R->tag_symbols.count) return false;
+    if (X->name <= XTNR_LAST) return false;
+    if (X->name >= R->tag_symbols.count) return false;
 // size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
+    if (X->paramcount < 0 || X->childcount < 0) return false;
+    int64_t value_pos = sizeof(XML_Item)+X->paramcount*(int64_t)sizeof(XML_Param_Description)+X->childcount*(int64_t)sizeof(relative_ptr_t);
+    if (value_pos >= X->length) return false; // not safe to access params, children or type of value
 // params check
-    for(int p = 0;p < paramcount;p++)
+    const XML_Param_Description *params = reinterpret_cast<const XML_Param_Description*>(X+1);
+    for(int p = 0;p < X->paramcount;p++)
     {
-        XML_Param_Description *PD = getParamByIndex(p);
+        const XML_Param_Description *PD = params+p;
         if (PD->name <= XPNR_LAST) return false; // too low
         if (PD->name >= R->param_symbols.count) return false; // too high
-        if (PD->type < XBT_NULL) return false;
-        if (PD->type >= XBT_LAST) return false;
-    // inline parameters
-        if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
-    // check link
-        if (PD->data < 0) return false; // reference out of node is not allowed here and yet
-        if (PD->data >= length) return false; // pointer out of limit
-        
-
-        switch (PD->type)
-        {
-            case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
-            case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
-            case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
-            case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-            case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
-            case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
-            case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
-            case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
-            default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
-                return false;
-        }
+        if (XBT_IS_4(PD->type)) continue; // inline parameters
+        if (PD->type != XBT_NULL && (PD->data < 0 || PD->data >= X->length)) return false; // reference out of node is not allowed here and yet
+        if (!CheckValue(PD->type,x+PD->data,x+X->length)) return false;
+    }
+// value check
+    if (!CheckValue(static_cast<uint8_t>(x[value_pos]),x+value_pos+1,x+X->length)) return false;
+// children
+    const relative_ptr_t *children = reinterpret_cast<const relative_ptr_t*>(params+X->paramcount);
+    for(int i = 0;i < X->childcount;i++)
+    {
+        int64_t pos = x-begin+children[i];
+        if (pos < 0 || pos + (int64_t)sizeof(XML_Item) > end-begin) return false;
+        if (((x+children[i]-reinterpret_cast<const char *>(R->doc)) & 3) != 0) return false;
     }
-// TODO: check value
+    return true;
+}
 
+static bool CheckTree(const XML_Item *X,XB_reader *R,const char *begin,const char *end,uint8_t *state,int deep)
+// Nodes can be shared, so each one is checked only once; state: 0 = unknown, 1 = checking now, 2 = ok
+{
+    if (deep >= XML_MAX_DEEP) return false;
+    if (!CheckNode(X,R,begin,end)) return false;
 
-    if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
-            
+    const char *x = reinterpret_cast<const char *>(X);
+    uint8_t &S = state[(x-begin) >> 2];
+    S = 1;
+    const relative_ptr_t *children = reinterpret_cast<const relative_ptr_t*>(x+sizeof(XML_Item)+X->paramcount*sizeof(XML_Param_Description));
+    for(int i = 0;i < X->childcount;i++)
+    {
+        const char *child = x+children[i];
+        uint8_t child_state = state[(child-begin) >> 2];
+        if (child_state == 1) return false; // node cannot contain itself
+        if (child_state == 0 && !CheckTree(reinterpret_cast<const XML_Item*>(child),R,begin,end,state,deep+1)) return false;
+    }
+    S = 2;
     return true;
 }
 
+bool XML_Item::Check(XB_reader *R,bool recursive) 
+// I want to check everything to be 100% sure, data are ok
+{
+    if (THIS_IS_NULL) return false;  // NULL is not ok
+    if (R == nullptr) return false;
+
+    const char *begin = reinterpret_cast<const char *>(R->doc);
+    const char *end = begin + R->size;
+    const char *x = reinterpret_cast<const char *>(this);
+    if (!CheckNode(this,R,begin,end)) return false;
+    if (!recursive) return true;
+
+// standard nodes are in range of doc, each appended node contains all it's children
+    if (x >= begin + R->doc->length)
+        begin = x;
+    end = begin + reinterpret_cast<const XML_Item *>(begin)->length;
+
+    uint8_t *state = reinterpret_cast<uint8_t*>(calloc(((end-begin) >> 2)+1,1));
+    if (state == nullptr) return false;
+    bool ok = CheckTree(this,R,begin,end,state,0);
+    free(state);
+    return ok;
+}
+
 //-------------------------------------------------------------------------------------------------
 
 int32_t s_int32_value = -1;
@@ -269,17 +295,18 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     
         if (X->name != XTNR_ET_TECERA) // OK, standard child
             return X;
+        if (reinterpret_cast<char*>(this) >= reinterpret_cast<char*>(R.doc) + R.doc->length) return nullptr; // appended element cannot be extended
     // this is ET_TECERA special tag and will be replaced with jump to next element
         int length = R.doc->length;
         i = -length; // negative value means direct offset
     }
     
-    int offset = -i;
+    int64_t offset = -(int64_t)i;
     AA(offset);
     
-    if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
+    if (offset + sizeof(XML_Item) > R.size) return nullptr; // end of data -> no more can fit
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
-    if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
+    if (X->length <= 0 || offset + X->length > (int64_t)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
@@ -625,6 +652,7 @@ const char *XML_Param_Description::getString(const XML_Item *X) const
 _XB_symbol_table::_XB_symbol_table()
 {
     count = 0;
+    type_count = 0;
 // these pointers refers to xb content directly
     item_container = nullptr;
     reference_array = nullptr;
@@ -645,13 +673,14 @@ bool _XB_symbol_table::Load(XML_Item *container)
 // or in <param_symbols ...> element
 {
     item_container = container;
-    count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
-    if (count == 0) return true; // ok, no symbols
+    int32_t symbol_count = container->getParamByName(XPNR_COUNT)->getInt(container);
+    if (symbol_count == INT32_NULL || symbol_count < 0) return false;
+    if (symbol_count == 0) return true; // ok, no symbols
 
-    type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
-    if (type_count == INT32_NULL)
-        type_count = 0;
+    int32_t symbol_type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
+    if (symbol_type_count == INT32_NULL)
+        symbol_type_count = 0;
+    if (symbol_type_count < 0) return false;
 
     
     int32_t size = -1; // size of whole data block - reference_array & strings
@@ -663,6 +692,9 @@ bool _XB_symbol_table::Load(XML_Item *container)
     }*/
 //    std::cout << "*** Reading symbol table of " << count << " elements with size " << size << " bytes.\n";
     if (reference_array == nullptr) return false;   // count != 0
+    if (symbol_count*(int64_t)sizeof(relative_ptr_t)+symbol_type_count*(int64_t)sizeof(XML_Binary_Type_Stored) > size) return false; // no place for arrays
+    count = symbol_count;
+    type_count = symbol_type_count;
     
     type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+count);
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
@@ -671,11 +703,18 @@ bool _XB_symbol_table::Load(XML_Item *container)
     for(int s = 0;s < count;s++)
     {
         const char *value = reinterpret_cast<const char*>(container) + reference_array[s];
-        if (value < A0) return false;
-        if (value >= A1) return false;
+        if (value < A0 || value >= A1)
+        {
+            count = 0;
+            return false;
+        }
         int max_len = A1-value;
         int len = strnlen(value,max_len);
-        if (len == max_len) return false; // unterminated string
+        if (len == max_len) // unterminated string
+        {
+            count = 0;
+            return false;
+        }
     }
     return true;
 }
@@ -725,6 +764,7 @@ XB_reader::XB_reader(char *filename)
     
     this->doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
     this->data = nullptr;
+    this->verbosity = 0;
 }
 
 XB_reader::~XB_reader()
@@ -793,8 +833,13 @@ bool XB_reader::Initialize()
         return false;
     }
 
-    size = file_getsize(this->filename);
-    assert(size > sizeof(XML_Item));
+    int64_t file_size = file_getsize(this->filename);
+    if (file_size <= (int64_t)sizeof(XML_Item) || file_size > INT32_MAX)
+    {
+        std::cerr << "Error: " << this->filename << " is not .xb file - wrong size!\n";
+        return false;
+    }
+    size = file_size;
 
     doc = reinterpret_cast<XML_Item*>(mmap(NULL,size,PROT_READ,MAP_SHARED,fd,0));
     if (doc == MAP_FAILED)
@@ -802,7 +847,7 @@ bool XB_reader::Initialize()
         ERRNO_SHOW(1025,"mmap",filename);
         return false;
     }
-    assert(doc->name == XTNR_META_ROOT);
+    if (doc->name != XTNR_META_ROOT) return false; // not .xb file
 
     // check only root element
     if (!doc->Check(this,false)) return false;
@@ -819,11 +864,23 @@ bool XB_reader::Initialize()
     // recursive check all elements - both symbol tables are loaded -> can check recursively
     if (!doc->Check(this,true)) return false;   
 
+    // check appended elements - last of them can be incomplete
+    int64_t offset = doc->length;
+    for(;;)
+    {
+        AA(offset);
+        if (offset + sizeof(XML_Item) > size) break;
+        X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(doc) + offset);
+        if (X->length > 0 && offset + X->length > (int64_t)size) break;
+        if (!X->Check(this,true)) return false;
+        offset += X->length;
+    }
+
     //    std::cout << "DBG: data = " << (void*)doc;
 
     data = doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0);
 
-    return true;
+    return data != nullptr;
 }
 
 bool XB_reader::Finalize()
-- 
2.43.0


From 19f34d6953d7b291f925fb960963faaf9e9e4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 15/67] fix: reader accessors return stored 64-bit values,
 references to aligned data and names of built-in parameters

---
 include/binary_xml/bin_xml.h |  8 ++---
 src/bin_xml.cpp              | 59 +++++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 046cd15..b2bd0e7 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -78,6 +78,9 @@ enum XML_Param_Names
 // </meta_root>
 //-------------------------------------------------------------------------------------------------
 
+const char *XTNR2str(int16_t name);
+const char *XPNR2str(int16_t name);
+
 class XML_Param_Description;
 class XB_reader;
 class XML_Item;
@@ -206,7 +209,7 @@ public:
     bool Finalize();
 
     inline const char *getNodeName(tag_name_id_t name_id) const     { return tag_symbols.getSymbol(name_id);}
-    inline const char *getParamName(tag_name_id_t name_id) const    { return param_symbols.getSymbol(name_id);}
+    inline const char *getParamName(tag_name_id_t name_id) const    { return name_id < 0 ? XPNR2str(name_id) : param_symbols.getSymbol(name_id);}
     inline const char *getFilename() const                          { return filename;}
     inline tag_name_id_t getNodeID(const char *name) const          { return static_cast<tag_name_id_t>(tag_symbols.getID(name));}
     inline param_name_id_t getParamID(const char *name) const       { return static_cast<param_name_id_t>(param_symbols.getID(name));}
@@ -222,8 +225,5 @@ public:
 
 std::ostream& operator<<(std::ostream& os, const hash192_t& h);
 
-const char *XTNR2str(int16_t name);
-const char *XPNR2str(int16_t name);
-
 } // pklib_xml::
 #endif
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 38c565a..80eceb3 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -161,7 +161,12 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) 
+    {
+        const char *p = reinterpret_cast<const char *>(X)+data;
+        AA8(p);
+        return reinterpret_cast<const int64_t *>(p);
+    }
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
@@ -209,12 +214,31 @@ const int   XML_Param_Description::getStringChunk(const XML_Item *X,int &offset,
     else return XBT_ToStringChunk(static_cast<XML_Binary_Type>(type),reinterpret_cast<const char*>(X) + data,offset,dst,dst_size);
 }
 
+static void AlignData(XML_Binary_Type type,char **data)
+{
+    int align = XBT_Align(type);
+    if (align == 4) 
+        AA(*data);
+    else if (align == 8)
+        AA8(*data);
+}
+
+static void SetContent(XML_Binary_Data_Ref &D)
+// content is without size of blob
+{
+    bool varsize = XBT_IS_VARSIZE(D.type);
+    D.content = varsize ? D.data + sizeof(int32_t) : D.data;
+    D.content_size = varsize ? D.size - sizeof(int32_t) : D.size;
+}
+
 XML_Binary_Data_Ref XML_Param_Description::getData(XML_Item *X) 
 {
     XML_Binary_Data_Ref D;
     D.type = XBT_UNKNOWN;
     D.data = nullptr;
+    D.content = nullptr;
     D.size = 0; // D as Data
+    D.content_size = 0;
 
     if (THIS_IS_NULL || X == nullptr) return D;
     D.type = static_cast<XML_Binary_Type>(type);
@@ -223,13 +247,15 @@ XML_Binary_Data_Ref XML_Param_Description::getData(XML_Item *X)
         D.data = reinterpret_cast<char*>(&data);
         D.size = 4;
     }
-    else
+    else if (type != XBT_NULL)
     {
         D.data = reinterpret_cast<char*>(X) + data;
+        AlignData(D.type,&D.data);
         if (type == XBT_STRING) D.size = 1+strlen(D.data);
         else if (XBT_IS_VARSIZE(type)) D.size = 4 + *reinterpret_cast<int32_t*>(D.data);
         else D.size = XBT_FIXEDSIZE(type);
     }
+    SetContent(D);
     return D;
 }
     
@@ -467,7 +493,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
@@ -505,7 +532,9 @@ XML_Binary_Data_Ref XML_Item::getData()
     XML_Binary_Data_Ref R;
     R.type = XBT_UNKNOWN;
     R.data = nullptr;
+    R.content = nullptr;
     R.size = 0;
+    R.content_size = 0;
 
     if (THIS_IS_NULL) return R;
     CHECK_AA_THIS;
@@ -515,35 +544,17 @@ XML_Binary_Data_Ref XML_Item::getData()
         +childcount * sizeof(relative_ptr_t);
     R.type = static_cast<XML_Binary_Type>(*(p++));
 
+    AlignData(R.type,&p);
+    if (R.type != XBT_NULL) R.data = p;
     if (XBT_IS_4(R.type)) 
-    {
-        AA(p);
-        R.data = p;
         R.size = 4;
-    }
-    else if (XBT_IS_8(R.type))
-    {
-        AA8(p);
-        R.data = p;
-        R.size = 8;
-    }
     else if (R.type == XBT_STRING) 
-    {
-        R.data = p;
         R.size = strlen(p)+1;
-    }
     else if (XBT_IS_VARSIZE(R.type)) 
-    {
-        AA(p);
-        R.data = p;
         R.size = 4 + *reinterpret_cast<int32_t*>(R.data);
-    }
     else 
-    {
-        AA(p);
-        R.data = p;
         R.size = XBT_FIXEDSIZE(R.type);
-    }
+    SetContent(R);
     assert(R.size >= 0);
     return R;
 }
-- 
2.43.0


From 56975ea420b196079f9339a0249c30e405bdc695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 16/67] fix: base64 text is terminated when it exactly fills
 its buffer

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..a1f383a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1236,7 +1236,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From a541a20c77a2e301872014a7c8ee052975003288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 17/67] fix: calendar conversions: last day of leap years,
 dates before 1970, invalid days and times, range checks

---
 src/utils.cpp | 217 ++++++++++++++++++++++++++++----------------------
 1 file changed, 121 insertions(+), 96 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index a1f383a..f0466eb 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -422,143 +422,161 @@ const int LEAP_MONTH_OFFSET[12] = {
     //    31+29+31+30+31+30+31+31+30+31+30+31,
 };
 
-const int MAX_DAY = 0xffffffff/(24*60*60);
-
-bool ScanUnixTime(const char *&p,uint32_t &value)
+static int s_FloorDiv(int a,int b)
+// division rounding down - years before divisor base must not be rounded to zero
 {
-    value = 0;
-    int year,month,day,hour,minute,second;
+    return a / b - (a % b != 0 && (a < 0) != (b < 0));
+}
 
-    const char *beg = p;
+static bool s_ScanDate(const char *&p,int &year,int64_t &days)
+// YYYY-MM-DD --> days since 1970-01-01
+{
+    int64_t year64;
+    int month,day;
 
-    if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
+    if (!ScanInt64(p,year64)) return false;    
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,month)) return false;    
     if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
+    if (*p != '-') return false;
+    p++;
     if (!ScanInt(p,day)) return false;    
 
-    if (year < 1970) 
+    if (year64 < -365749 || year64 > 369689) 
     { 
-        fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
+        fprintf(stderr,"Unsupported year %lld! Only dates in range -365749 .. 369689 is allowed.",static_cast<long long>(year64));
         return false;
     }
-
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    year = year64;
 
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
-    value += day - 1;
+    const int *month_offset = is_leap_year ? LEAP_MONTH_OFFSET : MONTH_OFFSET;
+    int month_end = month == 12 ? (is_leap_year ? 366 : 365) : month_offset[month];
+    if (day < 1 || day > month_end - month_offset[month-1]) return false; // no such day in this month
+
+    days = static_cast<int64_t>(year - 1970) * 365;
+    days += s_FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    days -= s_FloorDiv(year - 1900 - 1,100);
+    days += s_FloorDiv(year - 1600 - 1,400);
+    days += month_offset[month-1];
+    days += day - 1;
+    return true;
+}
 
-    if (value > (uint32_t)MAX_DAY)
-    {
-        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
-        return false;
-    }
+static bool s_ScanDateTime(const char *&p,int &year,int64_t &seconds)
+// YYYY-MM-DD[ HH[:MM:SS]] --> seconds since 1970-01-01
+{
+    int hour,minute,second;
 
-    value *= 24*60*60;
+    if (!s_ScanDate(p,year,seconds)) return false;
+    seconds *= 24*60*60;
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
     if (!ScanInt(p,hour)) return false;    
-    value += hour*3600;
+    if (hour < 0 || hour > 23) return false;
+    seconds += hour*3600;
     if (*p == '\0') return true; // end of string
-    if (*(p++) != ':') return false;
+    if (*p != ':') return false;
+    p++;
 
     if (!ScanInt(p,minute)) return false;    
-    value += minute*60;
-    if (*(p++) != ':') return false;
+    if (minute < 0 || minute > 59) return false;
+    seconds += minute*60;
+    if (*p != ':') return false;
+    p++;
 
     if (!ScanInt(p,second)) return false;    
-    value += second;
+    if (second < 0 || second > 59) return false;
+    seconds += second;
     return true;
 }
 
-bool ScanUnixTime64msec(const char *&p,int64_t &value)
+bool ScanUnixTime(const char *&p,uint32_t &value)
 {
-    value = 0;
-    uint32_t tm32;
+    const char *p1 = p;
+    int year;
+    int64_t seconds;
 
-    const char *start = p;
+    value = 0;
+    if (!s_ScanDateTime(p1,year,seconds)) return false;
 
-    if (!ScanUnixTime(p,tm32)) return false;
-    if (*(p++) != '.') 
+    if (year < 1970) 
+    { 
+        fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
+        return false;
+    }
+    if (seconds > 0xffffffff)
     {
-        value = (int64_t)tm32*1000; // whole seconds only
-        return true;  // OK
+        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",p);
+        return false;
     }
+    value = static_cast<uint32_t>(seconds);
+    p = p1;
+    return true;
+}
+
+bool ScanUnixTime64msec(const char *&p,int64_t &value)
+{
+    const char *p1 = p;
+    int year;
+    int64_t seconds;
+    int v000 = 0;
+
+    value = 0;
+    if (!s_ScanDateTime(p1,year,seconds)) return false;
 
-    if (*p < '0' || *p > '9') return false;
-    int v000 = 100 * (*(p++) - '0');
-    if (*p < '0' || *p > '9') return false;
-    v000 += 10 * (*(p++) - '0');
-    if (*p < '0' || *p > '9') return false;
-    v000 += (*(p++) - '0');
+    if (*p1 == '.') 
+    {
+        p1++;
+        if (*p1 < '0' || *p1 > '9') return false;
+        v000 = 100 * (*(p1++) - '0');
+        if (*p1 < '0' || *p1 > '9') return false;
+        v000 += 10 * (*(p1++) - '0');
+        if (*p1 < '0' || *p1 > '9') return false;
+        v000 += (*(p1++) - '0');
+    }
 
-    if (start[10] == 'T') // zone expected
+    const char *T = p;
+    while (T < p1 && *T != 'T') T++;
+    if (T < p1) // zone expected
     {
     // skip next decimals
-        while (*p >= '0' && *p <= '9') p++;
-        if (*p == 'Z') ;// UTC
-        else if (*p == '+' || *p == '-')
+        while (*p1 >= '0' && *p1 <= '9') p1++;
+        if (*p1 == 'Z') p1++; // UTC
+        else if (*p1 == '+' || *p1 == '-')
         {
-            char sign = *(p++);
+            char sign = *(p1++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
-            {
-                if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
-                else
-                    tm32 += hour*3600 + min*60; 
-            }
+            if (!isdigit(*p1) || !ScanInt(p1,hour) || hour > 23) return false;
+            if (*p1 != ':') return false;
+            p1++;
+            if (!isdigit(*p1) || !ScanInt(p1,min) || min > 59) return false;
+            if (sign == '+')
+                seconds -= hour*3600 + min*60; 
+            else
+                seconds += hour*3600 + min*60; 
         }
-            
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
-
+    value = v000 + seconds * 1000;
+    p = p1;
     return true;
 }
 
 bool ScanUnixDate(const char *&p,int32_t &value)
 {
-    int year,month,day;
-
-    //const char *beg = p;
-
-    if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,month)) return false;    
-    if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,day)) return false;    
-
-    if (year < -365749 || year > 369689) 
-    { 
-        fprintf(stderr,"Unsupported year %d! Only dates in range -365749 .. 369689 is allowed.",year);
-        return false;
-    }
-
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    const char *p1 = p;
+    int year;
+    int64_t days;
 
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
-    value += day - 1;
+    if (!s_ScanDate(p1,year,days)) return false;
 
+    value = static_cast<int32_t>(days);
+    p = p1;
     return true;
 }
 
@@ -594,14 +612,14 @@ const uint8_t DAY2MONTH_LEAP[366] = {
 11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,11,
 12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12};
 
-char *UnixDate2Str(int32_t value,char *dst)
+char *UnixDate2Str(int32_t days,char *dst)
 {
-    value -= 10957; // 1.1.1970 base to 1.1.2000
+    int64_t value = static_cast<int64_t>(days) - 10957; // 1.1.1970 base to 1.1.2000
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
-    value -= y400 * YEARS400_TO_DAYS;
+    if (value % YEARS400_TO_DAYS < 0) y400--; // 1999 -> 1600..1999
+    value -= static_cast<int64_t>(y400) * YEARS400_TO_DAYS;
 
 
     year += y400*400;
@@ -644,13 +662,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
@@ -661,9 +679,16 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
+    const int64_t day = 1000 * 60*60*24;
+    int64_t days = value / day;
+    value %= day;
+    if (value < 0) // before 1970
+    {
+        value += day;
+        days--;
+    }
+    char *p = UnixDate2Str(static_cast<int32_t>(days),dst);
     p += strlen(p);
-    value %= 1000 * 60*60*24;
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0


From 070e89f525c64ca39bcb77971ebaa384a2b0f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 18/67] fix: integer and IPv4 scanners refuse values out of
 range and malformed addresses

---
 src/utils.cpp | 66 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f0466eb..eb61c14 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -288,31 +288,32 @@ bool ScanInt(const char *&p,int &value)
 
     int x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (__builtin_mul_overflow(x,10,&x) || 
+            __builtin_add_overflow(x,neg ? -digit : digit,&x)) return false; // value is out of range
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
 bool ScanIPv4(const char *&p,uint32_t &value)
 // 127.0.0.1 --> 0x7f00 0001
 {
-    int A,B,C,D; // A.B.C.D
+    int octet[4]; // A.B.C.D
     const char *p2 = p;
-    if (ScanInt(p2,A) && A >= 0 && A < 256 &&
-        *p2++ == '.' &&
-        ScanInt(p2,B) &&  B >= 0 && B < 256 &&
-        *p2++ == '.' &&
-        ScanInt(p2,C) &&  C >= 0 && C < 256 &&
-        *p2++ == '.' &&
-        ScanInt(p2,D) && D >= 0 && D < 256)
+    while (isspace(*p2)) p2++;
+    for(int i = 0;i < 4;i++)
     {
-        value = (A << 24) | (B << 16) | (C << 8) | D;
-        p = p2;
-        return true;
+        if (i > 0 && *(p2++) != '.') return false;
+        if (!isdigit(*p2)) return false; // no sign or space inside of address
+        if (!ScanInt(p2,octet[i]) || octet[i] > 255) return false;
     }
-    return false;
+    value = (static_cast<uint32_t>(octet[0]) << 24) | (octet[1] << 16) | (octet[2] << 8) | octet[3];
+    p = p2;
+    return true;
 }
 
 bool ScanInt64(const char *&p,int64_t &value)
@@ -326,10 +327,14 @@ bool ScanInt64(const char *&p,int64_t &value)
 
     int64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (__builtin_mul_overflow(x,10,&x) || 
+            __builtin_add_overflow(x,neg ? -digit : digit,&x)) return false; // value is out of range
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -345,6 +350,7 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isxdigit(*p1)) return false;
         while (*p1 != '\0')
         {
+            if ((x >> 60) != 0 && isxdigit(*p1)) return false; // value is out of range
             if (*p1 >= '0' && *p1 <= '9')
                 x = (x << 4) + (*(p1++) - '0');
             else if (*p1 >= 'A' && *p1 <= 'F')
@@ -359,7 +365,10 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        {
+            if (__builtin_mul_overflow(x,10,&x) ||
+                __builtin_add_overflow(x,static_cast<uint64_t>(*(p1++) - '0'),&x)) return false; // value is out of range
+        }
     }
     
     p = p1;
@@ -376,6 +385,7 @@ bool ScanUInt64Hex(const char *&p,uint64_t &value)
     if (!isxdigit(*p1)) return false;
     while (*p1 != '\0')
     {
+        if ((x >> 60) != 0 && isxdigit(*p1)) return false; // value is out of range
         if (*p1 >= '0' && *p1 <= '9')
             x = (x << 4) + (*(p1++) - '0');
         else if (*p1 >= 'A' && *p1 <= 'F')
@@ -917,10 +927,14 @@ bool ScanIntW(char *&p,int &value)
 
     int x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (__builtin_mul_overflow(x,10,&x) || 
+            __builtin_add_overflow(x,neg ? -digit : digit,&x)) return false; // value is out of range
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -935,10 +949,14 @@ bool ScanInt64W(char *&p,int64_t &value)
 
     int64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        int digit = *(p1++) - '0';
+        if (__builtin_mul_overflow(x,10,&x) || 
+            __builtin_add_overflow(x,neg ? -digit : digit,&x)) return false; // value is out of range
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = x;
     return true;
 }
 
@@ -954,6 +972,7 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         if (!isxdigit(*p1)) return false;
         while (*p1 != '\0')
         {
+            if ((x >> 60) != 0 && isxdigit(*p1)) return false; // value is out of range
             if (*p1 >= '0' && *p1 <= '9')
                 x = (x << 4) + (*(p1++) - '0');
             else if (*p1 >= 'A' && *p1 <= 'F')
@@ -968,7 +987,10 @@ bool ScanUInt64W(char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        {
+            if (__builtin_mul_overflow(x,10,&x) ||
+                __builtin_add_overflow(x,static_cast<uint64_t>(*(p1++) - '0'),&x)) return false; // value is out of range
+        }
     }
     
     p = p1;
-- 
2.43.0


From eb6678aa08fe30f2e6ec1bfc08ac6ccef8dcbf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 19/67] fix: AdvEqual handles trailing asterisk, asterisk
 before ? and repeated partial matches

---
 src/utils.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index eb61c14..d0b7e49 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -763,34 +763,33 @@ bool Go(const char *&p,char separator)
 }
 
 bool AdvEqual(const char *mask,const char *value)
+// mask: ? is any single character, * is any sequence of characters (even empty)
 {
     if (mask == nullptr) return true;
-    while (*mask != '\0' && *value != '\0')
+
+    const char *last_mask = nullptr; // position after last *
+    const char *last_value = nullptr; // end of characters skipped by last *
+    while (*value != '\0')
     {
-        if (*mask == *value || *mask == '?')
+        if (*mask == '*')
+        {
+            last_mask = ++mask;
+            last_value = value;
+        }
+        else if (*mask != '\0' && (*mask == *value || *mask == '?'))
         {
             mask++;
             value++;
         }
-        else if (*mask == '*' && *(mask+1) == '\0') // asterix at the end
-            return true; // ok
-        else if (*mask == '*')
+        else if (last_mask != nullptr) // last * will skip one more character
         {
-            mask++;
-            while (*mask == '*' || *mask == '?') mask++;
-
-            // I need to find the first character after *
-
-            while (*value != '\0')
-            {
-                if (*mask == *value && AdvEqual(mask+1,value+1)) return true; // found
-                value++;
-            }
+            mask = last_mask;
+            value = ++last_value;
         }
         else return false; // no match
-
     }
-    return *mask == '\0' && *value == '\0'; // both strings has the same end
+    while (*mask == '*') mask++;
+    return *mask == '\0'; // both strings has the same end
 }
 
 int ScanHex(const char *&p,uint8_t *dst,int dst_size)
-- 
2.43.0


From ef00b0a1e9c50ea7a15724b233476f3391e607da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 20/67] fix: Int64ToStr of the lowest value, StrWrite source
 position

---
 src/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index d0b7e49..7f307d4 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1140,7 +1140,7 @@ bool StrWrite(char *&dest,const char *dest_limit,const char *&src,const char *sr
     if (src_size > dst_space) return false; // nic neudělám a končím
     strncpy(dest,src,src_size);
     dest += src_size;
-    src = src_limit;
+    src += src_size;
     return true;
 }
 
@@ -1233,17 +1233,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t rest = neg ? -static_cast<uint64_t>(value) : value; // works even for INT64_MIN
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
-    if (value == 0)
+    if (rest == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (rest > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (rest % 10);
+            rest /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From 029e8d93b98235e8163af59c2c471c893aa2ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 21/67] fix: extension is searched in the file name only,
 force_directory and scan_dir report errors exactly

---
 src/files.cpp | 14 ++++++++++++--
 src/utils.cpp |  3 ++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index d7521f6..c0d8a1d 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -30,7 +30,12 @@ bool force_directory(const char *directory, mode_t mode)
 //          D(std::cout << "Dbg: " << directory_part << "\n");
     
             if (err == 0) continue;// ok - created
-            if (errno == EEXIST) continue;// ok - already exists
+            if (errno == EEXIST) 
+            {
+                struct stat info;
+                if (stat(directory_part,&info) == 0 && S_ISDIR(info.st_mode)) continue;// ok - already exists
+                errno = ENOTDIR; // there is something other
+            }
         
             ERRNO_SHOW(1009,"mkdir",directory_part);
             return false;
@@ -133,7 +138,11 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
             if (dirent->d_name[1] == '\0') continue; // skip .
             else if (dirent->d_name[1] == '.' && dirent->d_name[2] == '\0') continue; // skip ..
         }
-        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type)) break;
+        if (!on_file(base_dir,dirent->d_name,userdata,dirent->d_type))
+        {
+            errno = 0; // stopped by user - not an error
+            break;
+        }
 
 /*        if (*dirent->d_name == '.') continue; // hidden files .*, current dir and upper dir
         switch (dirent->d_type)
@@ -164,6 +173,7 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
     if (errno != 0)
     {
         ERRNO_SHOW(1102,"readdir",base_dir);
+        closedir(dir);
         return false;
     }
     if (closedir(dir) != 0)
diff --git a/src/utils.cpp b/src/utils.cpp
index 7f307d4..6557b00 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -239,7 +239,8 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         strcpy(new_name,filepath);
         return new_name;
     }
-    const char *dot = strrchr(filepath,'.');
+    const char *slash = strrchr(filepath,'/');
+    const char *dot = strrchr(slash != nullptr ? slash : filepath,'.'); // dot in directory name is not an extension
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From 3514056ce0be93b6b49d525c7926a875f1434a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 22/67] fix: file_getsha1 reads up to the end of file even
 after a short read

---
 src/missings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 5bcd1d0..e6f5e6d 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -163,9 +163,9 @@ bool file_getsha1(const char *filename,unsigned char *hash)
             close(fd);
             return false;
         }
+        if (size == 0)
+            break; // finished - short read is not the end of pipe
         blk_SHA1_Update(&ctx,buffer,size);
-        if (size < (int)sizeof(buffer))
-            break; // finished
     }
     blk_SHA1_Final(hash,&ctx);    
     if (close(fd) < 0)    
-- 
2.43.0


From d4f47b8b2c9bd734e287d27f64d8edd1133d4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 23/67] fix: declared size of SHA1 value is 20 bytes

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 5b5790b..07574e8 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -377,7 +377,7 @@ int XBT_Size2(XML_Binary_Type type,int size)
             return 16;
         case XBT_SHA1:
             ASSERT_NO_RET_N1(1075,size == 0 || size == 20);
-            return 24;
+            return 20;
         case XBT_UNIX_TIME:
             //printf("XBT_UNIX_TIME: size = %d\n",size);
             ASSERT_NO_RET_N1(1076,size == 0 || size == 4);
-- 
2.43.0


From 10590628f8de2fbb7c5ae32377764269981022ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 24/67] fix: detected type of column does not depend on order
 of values

---
 src/bin_xml_types.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 07574e8..3452d0c 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -251,7 +251,6 @@ XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
 
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
 {
-    if (expected == XBT_VARIANT) return expected; // non compatible types
     XML_Binary_Type detected = XBT_Detect(value);
     return XBT_JoinTypes(detected,expected);
 }
-- 
2.43.0


From 0974b47b1c130ee98b24ec143d8a1d700ba17cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 25/67] fix: comparison of values follows their natural order,
 texts are equal only to values they describe

---
 src/bin_xml_types.cpp | 127 +++++++++++++++++++++++++++++++-----------
 1 file changed, 94 insertions(+), 33 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 3452d0c..b9e9986 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -255,13 +255,58 @@ XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
     return XBT_JoinTypes(detected,expected);
 }
 
+static bool IsBytesType(XML_Binary_Type type)
+// sequence of bytes
+{
+    return type == XBT_BLOB || type == XBT_HEX || type == XBT_GUID || type == XBT_SHA1 || type == XBT_IPv6;
+}
+
+static bool GetWholeNumber(XML_Binary_Type type,const void *value,int size,int64_t &units,int32_t &nano)
+// value = units + nano / 10^9
+{
+    nano = 0;
+    int32_t scale = 1;
+    switch (type)
+    {
+        case XBT_INT32:         scale = 1;break;
+        case XBT_INT32_DECI:    scale = 10;break;
+        case XBT_INT32_CENTI:   scale = 100;break;
+        case XBT_INT32_MILI:    scale = 1000;break;
+        case XBT_INT32_MICRO:   scale = 1000000;break;
+        case XBT_INT32_NANO:    scale = 1000000000;break;
+        case XBT_UINT32:
+            if (size != sizeof(uint32_t)) return false;
+            units = *reinterpret_cast<const uint32_t *>(value);
+            return true;
+        case XBT_INT64:
+        case XBT_UINT64:
+            if (size != sizeof(int64_t)) return false;
+            units = *reinterpret_cast<const int64_t *>(value);
+            return true;
+        default:
+            return false;
+    }
+    if (size != sizeof(int32_t)) return false;
+    int32_t V = *reinterpret_cast<const int32_t *>(value);
+    units = V / scale;
+    V %= scale;
+    if (V < 0) // nano is never negative
+    {
+        units--;
+        V += scale;
+    }
+    nano = V * (1000000000 / scale);
+    return true;
+}
+
 int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary_Type B_type,const void *B_value,int B_size)
 {
 #define RETURN_COMPARE_OF_TYPE(_T) \
     if (A_size != sizeof(_T) || B_size != sizeof(_T)) return INT_NULL_VALUE;\
     if (*reinterpret_cast<const _T *>(A_value) < *reinterpret_cast<const _T *>(B_value)) return -1;\
     if (*reinterpret_cast<const _T *>(A_value) > *reinterpret_cast<const _T *>(B_value)) return 1;\
-    return 0;
+    if (*reinterpret_cast<const _T *>(A_value) == *reinterpret_cast<const _T *>(B_value)) return 0;\
+    return INT_NULL_VALUE; // not a number
 
     if (A_type == B_type) // the same type
     {
@@ -288,19 +333,33 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
                                 return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
             case XBT_BLOB_STRING:
                                 return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
-            case XBT_HEX:
-            case XBT_GUID:
-            case XBT_SHA1:
-            case XBT_IPv4:
-            case XBT_IPv6:
-                                if (A_size == B_size) // the same size
-                                    return memcmp(A_value,B_value,A_size);
+            case XBT_IPv4:      RETURN_COMPARE_OF_TYPE(uint32_t);
             default:
-                                return INT_NULL_VALUE;
+                                break;
         }
     }
-    if (A_size == B_size) // the same size
-        return memcmp(A_value,B_value,A_size);
+    if (IsBytesType(A_type) && IsBytesType(B_type))
+    {
+        int cmp = memcmp(A_value,B_value,A_size < B_size ? A_size : B_size);
+        if (cmp != 0) return cmp < 0 ? -1 : 1;
+        return A_size < B_size ? -1 : A_size > B_size;
+    }
+    if ((A_type == XBT_STRING || A_type == XBT_BLOB_STRING) && (B_type == XBT_STRING || B_type == XBT_BLOB_STRING))
+        return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
+
+    int64_t A_units,B_units;
+    int32_t A_nano,B_nano;
+    if (GetWholeNumber(A_type,A_value,A_size,A_units,A_nano) && GetWholeNumber(B_type,B_value,B_size,B_units,B_nano))
+    {
+        if (A_type == XBT_UINT64 || B_type == XBT_UINT64) // can exceed int64_t
+        {
+            bool A_big = A_type == XBT_UINT64 && A_units < 0;
+            bool B_big = B_type == XBT_UINT64 && B_units < 0;
+            if (A_big != B_big) return A_big ? 1 : -1;
+        }
+        if (A_units != B_units) return A_units < B_units ? -1 : 1;
+        return A_nano < B_nano ? -1 : A_nano > B_nano;
+    }
     // TODO: some conversions could be done here, but it is too much of code - matrix of types and their conversions
     return INT_NULL_VALUE; // uncomparable
 #undef RETURN_COMPARE_OF_TYPE
@@ -1164,33 +1223,35 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool
     }
 }
 
-bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
+static bool XBT_EqualText(const char *text,XML_Binary_Data_Ref B)
+// Is B the value of this text?
 {
-    if (A.type != B.type)
+    if (B.type == XBT_BLOB_STRING) return strcmp(text,B.content) == 0;
+    if (XBT_IS_INT32(B.type) || B.type == XBT_FLOAT || B.type == XBT_DOUBLE) // conversion of these will not report bad text
     {
-        if (A.type == XBT_STRING)
-        {
-            char *buffer = reinterpret_cast<char*>(alloca(A.size+64));
-            char *buffer_limit = buffer+A.size+64;
-            char *p = buffer;
-            if (!XBT_FromString(A.data,B.type,&p,buffer_limit)) return false; // cannot convert
+        char *end = nullptr;
+        strtod(text,&end);
+        if (end == text || *end != '\0') return false;
+    }
 
-            A.data = buffer;
-            A.size = p - buffer;
-        }
-        else if (B.type == XBT_STRING)
-        {
-            char *buffer = reinterpret_cast<char*>(alloca(B.size+64));
-            char *buffer_limit = buffer+B.size+64;
-            char *p = buffer;
-            if (!XBT_FromString(B.data,A.type,&p,buffer_limit)) return false; // cannot convert
+    int buffer_size = strlen(text)+64;
+    uint64_t *buffer = new uint64_t[(buffer_size >> 3)+1]; // aligned
+    char *data = reinterpret_cast<char *>(buffer);
+    char *p = data;
+    bool ok = XBT_FromString(text,B.type,&p,data+buffer_size) && p - data == B.size && memcmp(data,B.data,B.size) == 0;
+    delete [] buffer;
+    return ok;
+}
 
-            B.data = buffer;
-            B.size = p - buffer;
-        }
-        else
-            return false; // no compare of any types
+bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
+{
+    if (A.type != B.type)
+    {
+        if (A.type == XBT_STRING) return XBT_EqualText(A.data,B);
+        if (B.type == XBT_STRING) return XBT_EqualText(B.data,A);
+        return false; // no compare of any types
     }
+    if (A.type == XBT_BLOB_STRING) return strcmp(A.content,B.content) == 0; // there can be anything behind string
     if (A.size != B.size) return false;
     return memcmp(A.data,B.data,A.size) == 0;
 }
-- 
2.43.0


From cfd38702b39338879893504a277527ce56fbd58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 26/67] fix: long HEX values are scanned by lines as printed,
 text of DOUBLE does not depend on buffer size

---
 src/bin_xml_types.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index b9e9986..b355d6f 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -681,8 +681,13 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 if (!XBT_AlignAndFit(type,sizeof(int32_t)+max_size,_wp,limit)) return false;
                 int32_t *size = reinterpret_cast<int32_t*>(*_wp);
                 *_wp += sizeof(int32_t);
-                *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),max_size);
-                *_wp += *size;
+                *size = 0;
+                for(int scanned;(scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),max_size - *size)) > 0;)
+                {
+                    *size += scanned;
+                    *_wp += scanned;
+                    if (*src == '\n') src++; // long values are printed as lines of 16 bytes
+                }
                 return true;
             }
         case XBT_FLOAT:
@@ -1065,7 +1070,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             if (offset > 0) return 0;
             offset += sizeof(double);
 
-            snprintf(dst,dst_size,"%f",*reinterpret_cast<const double*>(data));
+            snprintf(dst,MIN_OUT_BUFFER_SIZE,"%f",*reinterpret_cast<const double*>(data)); // the same text for any dst_size
             if (strtod(dst,nullptr) != *reinterpret_cast<const double*>(data)) // value would be lost
                 snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data));
             return strlen(dst);
-- 
2.43.0


From 36ef7b2c2e854fb8145fb48b786021cb51b0c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 27/67] fix: text is equal to a typed value only when the whole
 text is its notation

---
 src/bin_xml_types.cpp | 85 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 6 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index b355d6f..d0c8ea1 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1228,16 +1228,89 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os,bool
     }
 }
 
+static bool ScanWholeInt32(const char *text,int decimals,int32_t value)
+// Is text a number equal to value / 10^decimals?
+{
+    bool negative = *text == '-';
+    if (*text == '-' || *text == '+') text++;
+
+    int64_t number = 0;
+    int digits = 0,places = 0;
+    for(bool point = false;*text != '\0';text++)
+    {
+        if (*text == '.' && !point) 
+        {
+            point = true;
+            continue;
+        }
+        if (*text < '0' || *text > '9') return false;
+        digits++;
+        if (point && places++ >= decimals)
+        {
+            if (*text != '0') return false;
+            continue;
+        }
+        number = number * 10 + *text - '0';
+        if (number > 0xffffffffLL) return false; // out of range
+    }
+    if (digits == 0) return false;
+    for(;places < decimals;places++)
+    {
+        number *= 10;
+        if (number > 0xffffffffLL) return false;
+    }
+    return (negative ? -number : number) == value;
+}
+
+static bool XBT_IsWholeText(const char *text,XML_Binary_Data_Ref B)
+// Whole text has to be a notation of type, numbers are compared here
+{
+    uint8_t bytes[20];
+    uint64_t u64;
+    int64_t i64;
+    uint32_t u32;
+    int32_t i32;
+    char *end = nullptr;
+    switch (B.type)
+    {
+        case XBT_INT32:         return ScanWholeInt32(text,0,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_INT32_DECI:    return ScanWholeInt32(text,1,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_INT32_CENTI:   return ScanWholeInt32(text,2,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_INT32_MILI:    return ScanWholeInt32(text,3,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_INT32_MICRO:   return ScanWholeInt32(text,6,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_INT32_NANO:    return ScanWholeInt32(text,9,*reinterpret_cast<const int32_t *>(B.data));
+        case XBT_FLOAT:
+        case XBT_DOUBLE:
+            strtod(text,&end);
+            return end != text && *end == '\0';
+        case XBT_UINT32:
+        case XBT_UINT64:        return ScanUInt64(text,u64) && *text == '\0';
+        case XBT_INT64:         return ScanInt64(text,i64) && *text == '\0';
+        case XBT_IPv4:          return ScanIPv4(text,u32) && *text == '\0';
+        case XBT_UNIX_TIME:     return ScanUnixTime(text,u32) && *text == '\0';
+        case XBT_UNIX_TIME64_MSEC: return ScanUnixTime64msec(text,i64) && *text == '\0';
+        case XBT_UNIX_DATE:     return ScanUnixDate(text,i32) && *text == '\0';
+        case XBT_GUID:
+            return ScanHex(text,bytes,16) == 16 && *text == '\0';
+        case XBT_SHA1:
+            return ScanHex(text,bytes,20) == 20 && *text == '\0';
+        case XBT_HEX:
+            while (ScanHex(text,bytes,16) > 0)
+            {
+                if (*text == '\n') text++;
+            }
+            return *text == '\0';
+        default:
+            return true; // all characters are used by conversion
+    }
+}
+
 static bool XBT_EqualText(const char *text,XML_Binary_Data_Ref B)
 // Is B the value of this text?
 {
     if (B.type == XBT_BLOB_STRING) return strcmp(text,B.content) == 0;
-    if (XBT_IS_INT32(B.type) || B.type == XBT_FLOAT || B.type == XBT_DOUBLE) // conversion of these will not report bad text
-    {
-        char *end = nullptr;
-        strtod(text,&end);
-        if (end == text || *end != '\0') return false;
-    }
+    if (!XBT_IsWholeText(text,B)) return false;
+    if (XBT_IS_INT32(B.type)) return true; // already compared
 
     int buffer_size = strlen(text)+64;
     uint64_t *buffer = new uint64_t[(buffer_size >> 3)+1]; // aligned
-- 
2.43.0


From 63b68c6bd6266b6e67de3ea4958469ca3d8da305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 28/67] fix: structure of JSON document is checked completely,
 name and value of member do not share a buffer

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 92 +++++++++++++++++-----------
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..367d8db 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,6 +14,7 @@ protected:
 	int		num_tokens1;
 	int		max_str_len;
 	char		*last_str;
+	char		*last_value;
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..517a548 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,33 +13,41 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static bool jsmn_prepare_total_size(jsmntok_t *tokens,int num_tokens)
 // will fill my extension of jmntok_t - total_size
+// Only tokens of one JSON value, where all members of objects have name and value, are accepted.
 {
-    int total_size = 1;
-	switch (tokens[idx].type)
-	{
-		case JSMN_STRING:
-		case JSMN_PRIMITIVE:
-			break;
-		case JSMN_OBJECT:
-			for(int i = tokens[idx].size;i > 0;i--)
-			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-			}
-			break;
-		case JSMN_ARRAY:
-			for(int i = tokens[idx].size;i > 0;i--)
-			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-			}
-			break;
-		default:
-			std::cerr << "jsmn_prepare_total_size: Unknown type " << tokens[idx].type << " at element " << idx << "\n";
-			_exit(1); // ERROR
-	}
-    return tokens[idx].total_size = total_size;
+    int deepest = 0;
+    for(int i = 0;i < num_tokens;i++)
+    {
+        jsmntok_t *X = tokens+i;
+        bool is_name = false;
+        if (i == 0 ? X->parent != -1 : (X->parent < 0 || X->parent >= i)) return false; // more roots
+        if (i > 0)
+        {
+            jsmntok_t *P = tokens+X->parent;
+            is_name = P->type == JSMN_OBJECT;
+            if (P->type == JSMN_PRIMITIVE) return false; // it is not container
+        }
+        if (is_name ? X->type != JSMN_STRING || X->size != 1 : 
+            (X->type == JSMN_STRING || X->type == JSMN_PRIMITIVE) && X->size != 0) 
+            return false; // member without name or value
+
+        // deep is stored in total_size temporarily
+        X->total_size = i == 0 ? 0 : tokens[X->parent].total_size + (is_name ? 0 : 1);
+        if (X->total_size > deepest) deepest = X->total_size;
+    }
+    if (deepest >= XML_MAX_DEEP) return false;
+
+    for(int i = 0;i < num_tokens;i++)
+        tokens[i].total_size = 1;
+    for(int i = num_tokens-1;i > 0;i--)
+    {
+        int owner = tokens[i].parent;
+        if (tokens[owner].type == JSMN_STRING) owner = tokens[owner].parent; // name is not owner of its value
+        tokens[owner].total_size += tokens[i].total_size;
+    }
+    return true;
 }
 
 //-------------------------------------------------------------------------------------------------
@@ -62,6 +70,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_value = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -76,6 +85,11 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_value != nullptr)
+	{
+		delete [] last_value;
+		last_value = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
@@ -91,7 +105,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
@@ -111,6 +125,11 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0)
+	{
+		std::cerr << "error: could not parse file " << filename << "\n";
+		return false;
+	}
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
@@ -144,13 +163,11 @@ bool Bin_json_plugin::Initialize()
 
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
-	int total_size = jsmn_prepare_total_size(tokens,0);
-	if (total_size != num_tokens0) 
+	if (!jsmn_prepare_total_size(tokens,num_tokens0))
 	{
-		std::cerr << ANSI_RED_BRIGHT "Error: jsmn_prepare_total_size() ---> " << total_size << " != " << num_tokens0 << ANSI_RESET_LF;
+		std::cerr << ANSI_RED_BRIGHT "Error: file " << filename << " is not single JSON value with named members or it is too deep" ANSI_RESET_LF;
 		return false; // fail
 	}
-//	std::cout << ANSI_GREEN_BRIGHT "OK: jsmn_prepare_total_size() ---> " << total_size << " == " << num_tokens0 << ANSI_RESET_LF;
 
 	// 5. max string size
 	for(int i = 0;i < num_tokens1;i++)
@@ -162,6 +179,7 @@ bool Bin_json_plugin::Initialize()
 
 	last_str = new char[max_str_len+1+4];	// possible adding "Item"
 	last_str[max_str_len] = '\0';
+	last_value = new char[max_str_len+1];	// name and value are used together
 
 	return true;
 }
@@ -196,7 +214,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_str,source + P2->start,len);
 			
 			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			if (len > 1 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
 			}
@@ -229,9 +247,9 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_value,source + X->start,X->end - X->start);
+	last_value[X->end - X->start] = 0;
+	return last_value;
 }
 
 const char *Bin_json_plugin::getNodeValue(void *element)
@@ -251,9 +269,9 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_value,source + X->start,X->end - X->start);
+	last_value[X->end - X->start] = 0;
+	return last_value;
 }
 
 void Bin_json_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
-- 
2.43.0


From 33c645d0c2ce50bb04422cd2a21f3a0095bd2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 29/67] fix: nameless root of JSON document can be stored to
 .xbw

---
 src/bin_xml_creator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e4a5f64..6fec3c5 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1115,12 +1115,14 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     else
     {
         const char *node_name = _this->src->getNodeName(element);
-        ASSERT_NO_RET(2072,node_name != nullptr);
-
         //printf("%s (%s)",node_name,pool->binary_xml_write_type_info);
 
-        id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
-        ASSERT_NO_RET(2056,id >= 0);
+        id = XTNR_NULL; // root of JSON has no name
+        if (node_name != nullptr)
+        {
+            id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
+            ASSERT_NO_RET(2056,id >= 0);
+        }
         st_type = SYMBOL_TABLE_NODES;
         flags = BIN_WRITE_ELEMENT_FLAG;
         value = _this->src->getNodeBinValue(element,tag_type,value_size);    // binary value referenced
@@ -1133,7 +1135,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
 
     if (from_text) // text analyse solution when binary is not available
     {
-        tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        tag_type = id >= 0 ? static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]) : XBT_STRING;
         if (value == nullptr || *value == '\0')
             tag_type = XBT_NULL; // no value
         else if (!XBT_IsExact(tag_type,value))
-- 
2.43.0


From 5f0e51c88a2383ccf7bad71ae98349a4b8e2d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 30/67] fix: builtin names and types are known before any
 symbol is registered

---
 src/bin_write_plugin.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 65d6ac8..e8139b2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1470,7 +1470,7 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 XML_Binary_Type BW_pool::getTagType(int16_t id) 
 {
     ASSERT_NO_(1063,this != nullptr,return XBT_UNKNOWN);
-    ASSERT_NO_(1051,tags.index != 0,return XBT_UNKNOWN);                // index not initialized 
+    ASSERT_NO_(1051,id < 0 || tags.index != 0,return XBT_UNKNOWN);      // index not initialized 
 
     if (id >=0 && id <= tags.max_id)    // id in range
     {
@@ -1503,8 +1503,8 @@ XML_Binary_Type BW_pool::getTagType(int16_t id)
 const char*     BW_pool::getTagName(int16_t id)
 {
     ASSERT_NO_RET_NULL(1064,this != nullptr);
-    ASSERT_NO_RET_NULL(1054,tags.index != 0);                // index not initialized 
     if (id < 0) return XTNR2str(id);
+    ASSERT_NO_RET_NULL(1054,tags.index != 0);                // index not initialized 
     ASSERT_NO_RET_NULL(1055,id >=0 && id <= tags.max_id);    // id out of range - should be in range, because range is defined by writing application
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(THIS+tags.index);
     
@@ -1517,7 +1517,7 @@ const char*     BW_pool::getTagName(int16_t id)
 XML_Binary_Type BW_pool::getAttrType(int16_t id)
 {
     ASSERT_NO_(1065,this != nullptr,return XBT_UNKNOWN);
-    ASSERT_NO_(1057,params.index != 0,return XBT_UNKNOWN);                // index not initialized 
+    ASSERT_NO_(1057,id < 0 || params.index != 0,return XBT_UNKNOWN);      // index not initialized 
     if (id < 0)
     {
         switch (id)
@@ -1547,10 +1547,9 @@ XML_Binary_Type BW_pool::getAttrType(int16_t id)
 const char*     BW_pool::getAttrName(int16_t id)
 {
     ASSERT_NO_RET_NULL(1066,this != nullptr);
-    ASSERT_NO_RET_NULL(1060,params.index != 0);                // index not initialized 
-
     if (id < 0) return XPNR2str(id);
 
+    ASSERT_NO_RET_NULL(1060,params.index != 0);                // index not initialized 
     ASSERT_NO_RET_NULL(1061,id >=0 && id <= params.max_id);    // id out of range - should be in range, because range is defined by writing application
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(THIS+params.index);
     BW_offset_t offset = elements[id];
-- 
2.43.0


From dd033308ca7925af8ff5c5fc21428af9107f16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 31/67] fix: pool grows also for symbols and values bigger than
 current free space

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 36 ++++++++++++++-------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..290a682 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -133,6 +133,7 @@ public: // index tables (indexed by id) - allocated on pool
     const char *    getDocTypeName();
     BW_element*     BWE(BW_offset_t offset) {return reinterpret_cast<BW_element*>(reinterpret_cast<char *>(this) + offset);};
 public:
+    bool            makeSpace(int size);
     char*           allocate(int size);
     char*           allocate8(int size);        // 64 bit aligned value
     BW_element*     new_element(XML_Binary_Type type,int size = 0);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e8139b2..2e467ba 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1639,12 +1639,21 @@ const char *BW_pool::getDocTypeName()
     return filename;
 }
 
+bool   BW_pool::makeSpace(int size)
+// file is extended by plugin - in BW_pool is fd inaccessible
+{
+    if (size <= allocator_limit - allocator) return true; // fits
+    BW_plugin *plugin = plugins.getPlugin(this);
+    ASSERT_NO_RET_FALSE(2012,plugin != nullptr);
+    ASSERT_NO_RET_FALSE(2013,plugin->makeSpace(size));
+    return size <= allocator_limit - allocator;
+}
+
 char*  BW_pool::allocate(int size)
 {
-    if (size <= 0) return 0;
+    if (size <= 0 || size > INT_MAX - 8) return 0;
     ROUND32UP(size);
-// memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1080,makeSpace(size));
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1657,11 +1666,10 @@ char*  BW_pool::allocate(int size)
 
 char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
-    if (size <= 0) return 0;
-    ROUND64UP(allocator);
+    if (size <= 0 || size > INT_MAX - 16) return 0;
     ROUND64UP(size);
-// memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1942,makeSpace(size+4)); // alignment can take 4 bytes
+    ROUND64UP(allocator);
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1677,21 +1685,14 @@ BW_element*     BW_pool::new_element(XML_Binary_Type type,int size)
 // XBT_Size() will add envelope size
 {
     ASSERT_NO_RET_NULL(1067,this != nullptr);
+    ASSERT_NO_RET_NULL(2137,size >= 0 && size < INT_MAX/2);
     int size2 = XBT_Size2(type,size);
     ASSERT_NO_RET_NULL(2075,size2 >= 0);
     //if (size2 < 0) return nullptr;
     int align = XBT_Align(type);
     ASSERT_NO_RET_NULL(2068,align == 0 || align == 4 || align == 8);
     BW_element* result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
-    if (result == nullptr) // need makeSpace
-    {
-        BW_plugin *plugin = plugins.getPlugin(this);
-        ASSERT_NO_RET_NULL(2012,plugin != nullptr);
-        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2));
-        result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
-        ASSERT_NO_RET_NULL(2091,result != nullptr);
-        if (result == nullptr) return nullptr; // error message already shown in allocate
-    }
+    ASSERT_NO_RET_NULL(2091,result != nullptr);
     result->value_type = type;
     result->prev = result->next = result->offset = (reinterpret_cast<char*>(result) - reinterpret_cast<char*>(this));
 
@@ -1999,7 +2000,8 @@ bool BW_plugin::CheckExistingFile(int file_size)
 
 bool BW_plugin::makeSpace(int size)
 {
-    int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
+    ASSERT_NO_RET_FALSE(2138,size >= 0);
+    int64_t new_size = ((static_cast<int64_t>(pool->allocator)+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
     if (new_size <= (int)pool->file_size) return true; // no grow - ok
     if (ftruncate(fd,new_size) < 0)
-- 
2.43.0


From 7157f2dfaf0f2149c8f6b82d1f081003b0e9a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 32/67] fix: symbol registered with id reports success, ids out
 of order are refused

---
 src/bin_write_plugin.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2e467ba..626ea78 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2035,6 +2035,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(2139,id >= 0 && id == pool->tags.max_id+1); // names are stored in order of ids, without gaps
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2045,13 +2046,13 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->tags.max_id,id);
     int len = strlen(name);
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
+    pool->tags.max_id = id;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2061,7 +2062,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
-    ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
+    ASSERT_NO_RET_FALSE(2115,dst+size-3 == reinterpret_cast<char*>(pool)+pool->allocator); // id and type are before name
     return true;
 }
 
@@ -2084,22 +2085,23 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
-    ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
-
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_FALSE(1115,pool->tags.names_offset != 0);
+    ASSERT_NO_RET_FALSE(2140,id >= 0 && id == pool->params.max_id+1); // names are stored in order of ids, without gaps
+    ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
+
 // root must be later
 //    ASSERT_NO_RET_FALSE(1116,pool->root == 0);
 //-----------------------------------------------
     if (pool->params.names_offset == 0)
         pool->params.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->params.max_id,id);
     int len = strlen(name);
 
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
+    pool->params.max_id = id;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2113,6 +2115,9 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 
 XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
 {
+    ASSERT_NO_RET_(2141,name != nullptr,XTNR_NULL);
+    ASSERT_NO_RET_(2142,type >= XBT_NULL && type < XBT_LAST,XTNR_NULL);
+
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
@@ -2133,6 +2138,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
             return static_cast<XML_Tag_Names>(id);
         }
     }
+    ASSERT_NO_RET_(2143,pool->tags.max_id < INT16_MAX,XTNR_NULL); // no free id
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
     int len = strlen(name);
@@ -2178,6 +2184,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
     }
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
+    ASSERT_NO_RET_(2144,pool->params.max_id < INT16_MAX,XPNR_NULL); // no free id
 // must be opened
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
-- 
2.43.0


From dd67771681b80fdba7d672cdf3aa5754b7fe34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 33/67] fix: clearing works for symbol tables registered in any
 order

---
 src/bin_write_plugin.cpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 626ea78..e6422b7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2334,33 +2334,16 @@ bool BW_plugin::Clear()
     // this is original situation
     int tags_size = pool->tags.getNamesSize(pool);
     int params_size = pool->params.getNamesSize(pool);
-    char *tags_src = (char*)BWE(pool->tags.names_offset);
-    char *params_src = (char*)BWE(pool->params.names_offset);
+    // old positions of tables can overlap new ones in any way
+    char *names = reinterpret_cast<char*>(malloc(tags_size + params_size + 1));
+    ASSERT_NO_RET_FALSE(2103,names != nullptr);
+    memcpy(names,(char*)pool + pool->tags.names_offset,tags_size);
+    memcpy(names+tags_size,(char*)pool + pool->params.names_offset,params_size);
 
     // this is requested situation
-    char *tags_dst = reinterpret_cast<char*>(pool+1);
-    char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
-    // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    memcpy(pool+1,names,tags_size + params_size);
+    free(names);
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
-- 
2.43.0


From 7c8400106c197fe685a2e244cc4aa466a3f682e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 34/67] fix: list of plugins was broken when plugin was not
 destroyed in reverse order

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e6422b7..0216982 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2962,7 +2962,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i)*sizeof(plugins[0]));
             return true;
         }
     return false;
-- 
2.43.0


From 3e89a644b12f5d4f0dc667bfdb12a14e77cfe4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 35/67] fix: opening of .xbw file verifies its header, failed
 opening leaves nothing opened, creating new file ignores old content

---
 include/binary_xml/bin_write_plugin.h |  2 +
 src/bin_write_plugin.cpp              | 87 +++++++++++++++++----------
 2 files changed, 58 insertions(+), 31 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 290a682..5cf980c 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -89,6 +89,7 @@ public:
     const char      *getName(BW_pool *pool,int search_id);
     XML_Binary_Type_Stored *getType(BW_pool *pool,int search_id);
     int32_t         getNamesSize(BW_pool *pool);
+    bool            inPool(BW_pool *pool);
     bool            check(BW_pool *pool);
     bool            Open(BW_pool *pool);
 };
@@ -278,6 +279,7 @@ public:
     bool        setMaxPoolSize(int max_pool_size);
     
     virtual bool Initialize();
+        bool OpenFile();
         bool InitEmptyFile();
         bool CheckExistingFile(int file_size);
     virtual bool Finalize();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0216982..c787380 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1403,40 +1403,51 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     const char *p_limit = POOL+pool->allocator;
     const char *p = start_p;
     
-    int id = 0;
-    int prev_id = -1;
-    while (id <= max_id)
+    for(int id = 0;id <= max_id;id++)
     {
-            id = s_SymbolID(p);
-            p += 2;
-            if (id != prev_id+1) // don't go to other table
-            {
-                LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-                max_id = prev_id;
-                p -= 2;
-                break;
-            }
-            p++; // skip type
-            while(p < p_limit && *p != '\0') p++;
-            p++; // ASCII.NUL
-            AA(p);
-            prev_id = id;
-            id++;
+        const char *end = p + 3; // skip id and type
+        if (end < p_limit && s_SymbolID(p) == id) // don't go to other table
+            while(end < p_limit && *end != '\0') end++;
+        else 
+            end = p_limit;
+        if (end >= p_limit) // not a symbol
+        {
+            int old_max_id = max_id;
+            max_id = id-1;
+            LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),old_max_id,max_id);
+            break;
+        }
+        p = end + 1; // ASCII.NUL
+        AA(p);
     }
     return p - start_p;
 }
 
+bool BW_symbol_table_16B::inPool(BW_pool *pool)
+// table is referenced only inside of used part of pool
+{
+    if (max_id < -1 || max_id > INT16_MAX) return false;
+    if (names_offset < 0 || names_offset > pool->allocator || (names_offset & 3) != 0) return false;
+    if (max_id >= 0 && names_offset < (int)sizeof(*pool)) return false;
+    return true;
+}
+
 bool BW_symbol_table_16B::check(BW_pool *pool)
 {
+    BW_offset_t index = this->index;
+    this->index = 0; // cannot be used till it is verified
+    int names_size = getNamesSize(pool); // can correct max_id
     if (index == 0) return true; // OK, no index is OK
+    ASSERT_NO_RET_FALSE(2148,index >= (int)sizeof(*pool) && (index & 3) == 0 && index <= pool->allocator);
+    ASSERT_NO_RET_FALSE(2149,max_id < (pool->allocator - index) / (int)sizeof(BW_offset_t));
     char *POOL = reinterpret_cast<char*>(pool);
     BW_offset_t *elements = reinterpret_cast<BW_offset_t*>(POOL+index);
-    int names_size = getNamesSize(pool);
     for(int i = 0;i <= max_id;i++)
     {
         // index reference must be in range of correct names, otherwise index is invalid
-        ASSERT_NO_RET_FALSE(2109,elements[i] >= names_offset && elements[i] < names_offset + names_size);
+        ASSERT_NO_RET_FALSE(2109,elements[i] >= names_offset && elements[i] <= names_offset + names_size - 4 && s_SymbolID(POOL + elements[i]) == i);
     }
+    this->index = index;
     return true; // OK
 }
 
@@ -1621,7 +1632,8 @@ const char *BW_pool::getDocTypeName()
 //    {
 //        return doc_type_name;
 //    }
-    if (root > getPoolSize() && root < allocator)
+    BW_plugin *plugin = plugins.getPlugin(this);
+    if (plugin != nullptr && plugin->isInitialized() && root > getPoolSize() && root < allocator) // content is verified
     {
         BW_element *root = BWE(this->root);   
         ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
@@ -1630,7 +1642,6 @@ const char *BW_pool::getDocTypeName()
     }
 // OK, no root name - so some early stage
    
-    BW_plugin *plugin = plugins.getPlugin(this);
     if (plugin == nullptr) return "(no plugin for pool)";
     const char *filename = plugin->getFilename();
     if (filename == nullptr) return "(no filename in plugin)";
@@ -1847,7 +1858,21 @@ bool BW_plugin::setMaxPoolSize(int max_pool_size)
 bool BW_plugin::Initialize()
 {
     if (initialized) return true; // no double initialize!!
+    int requested_pool_size = max_pool_size;
+    if (!OpenFile())
+    {
+        Finalize(); // nothing will stay opened
+        max_pool_size = requested_pool_size;
+        return false;
+    }
+    initialized = true;
+    return true;
+}
+
+bool BW_plugin::OpenFile()
+{
     ASSERT_NO_RET_FALSE(1952,filename != nullptr);
+    ASSERT_NO_RET_FALSE(2145,max_pool_size >= BW2_INITIAL_FILE_SIZE); // initial file must be mapped
 
 // BW_plugin is owner and the only one (for now) writer of mapped file
 
@@ -1868,6 +1893,7 @@ bool BW_plugin::Initialize()
     }
     int file_size = (int)statbuf.st_size;
     ASSERT_NO_RET_FALSE(1100,file_size >= 0); // file should exist now
+    if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW) file_size = 0; // old content is not interesting
 
     for(int pass = 0;pass < 2;pass++)
     {
@@ -1883,6 +1909,7 @@ bool BW_plugin::Initialize()
                     fd, 0));
         if (pool == MAP_FAILED)
         {
+            pool = nullptr;
             ERRNO_SHOW(1049,"mmap",filename);
             return false;
         }
@@ -1904,12 +1931,10 @@ bool BW_plugin::Initialize()
 // OK, what 2 do now?
 // There are 2 situations - file is empty and I want to create and write ... simple one
 //                        - file is somehow populated, it must be fully compatibale, or I must fail
-    if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW || file_size == 0)
+    if (file_size == 0)
         ASSERT_NO_RET_FALSE(1101,InitEmptyFile());
     else
         ASSERT_NO_RET_FALSE(1102,CheckExistingFile(file_size));
-
-    initialized = true;
     return true;
 }
 
@@ -1968,21 +1993,21 @@ bool BW_plugin::InitEmptyFile()
 
 bool BW_plugin::CheckExistingFile(int file_size)
 {
-    ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
+    ASSERT_NO_RET_FALSE(1953,strncmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org",sizeof(pool->binary_xml_write_type_info)) == 0);
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
     ASSERT_NO_RET_FALSE(1943,(int)pool->file_size == file_size);
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
     ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
-    ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
+    ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool) && (pool->allocator & 3) == 0);
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
+    ASSERT_NO_RET_FALSE(2146,pool->root == 0 || (pool->root >= (int)sizeof(*pool) && (pool->root & 3) == 0 && pool->root <= pool->allocator - (int)sizeof(BW_element)));
+    ASSERT_NO_RET_FALSE(2147,pool->tags.inPool(pool) && pool->params.inPool(pool));
 
     this->check_only = true;
     this->check_failures = 0;
 
-    if (!pool->tags.check(pool)) // DO NOT OPEN HERE - not ready to write yet
-        pool->tags.index = 0; // ASSERT_NO_RET_FALSE(2110,pool->tags.Open(pool));
-    if (!pool->params.check(pool)) // DO NOT OPEN HERE - not ready to write yet
-        pool->params.index = 0; // ASSERT_NO_RET_FALSE(2111,pool->params.Open(pool));
+    pool->tags.check(pool);   // DO NOT OPEN HERE - not ready to write yet, bad index is forgotten
+    pool->params.check(pool); // DO NOT OPEN HERE - not ready to write yet
 
 //    ASSERT_NO_RET_FALSE(1951,allRegistered()); // make tables and be ready for checking of registration
     // check pool->tags
-- 
2.43.0


From 9288bf9b160efc301524206f70a0d0ac58283f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 36/67] fix: replacing of the only child keeps list of siblings
 closed

---
 src/bin_write_plugin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c787380..58a1ac0 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -166,15 +166,19 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     if (THIS_IS_NULL) return nullptr; // no where to add
     if (old_value == nullptr) return nullptr; // failure
 
+    ASSERT_NO_RET_NULL(2150,new_value != nullptr);
     ASSERT_NO_RET_NULL(2016,new_value->next == new_value->offset);
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // has siblings
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
 
-    BWE(new_value->next)->prev = new_value->offset;
-    BWE(new_value->prev)->next = new_value->offset;
+        BWE(new_value->next)->prev = new_value->offset;
+        BWE(new_value->prev)->next = new_value->offset;
+    }
     
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
-- 
2.43.0


From 079bb685bfe4390acdad267d82c6badb40c1eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 37/67] fix: setting of value keeps position, attributes and
 children of element

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 67 +++++++++++++++------------
 2 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 5cf980c..f851ffb 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -185,6 +185,7 @@ public:
     BW_element* add(BW_element *tag);
     BW_element* remove(BW_element *tag);
     BW_element* replace(BW_element *old_value,BW_element *new_value);
+    BW_element* replaceValue(BW_element *old_value,BW_element *new_value);
     BW_element* retype(XML_Binary_Type new_type); // only "compatible" (=same size) types
 
     BW_element  *attrNull(int16_t id);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 58a1ac0..0005962 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -191,6 +191,17 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     return this;
 }
 
+BW_element* BW_element::replaceValue(BW_element *old_value,BW_element *new_value)
+// new element takes over place, attributes and children of old one
+{
+    if (replace(old_value,new_value) == nullptr) return nullptr;
+
+    new_value->first_attribute = old_value->first_attribute;
+    new_value->first_child = old_value->first_child;
+    old_value->first_attribute = old_value->first_child = 0;
+    return new_value;
+}
+
 BW_element*     BW_element::retype(XML_Binary_Type new_type)
 {
     if (THIS_IS_NULL) return nullptr;
@@ -789,8 +800,7 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         }
         else
         {
-            BW_element *new_item = getPool()->tagInt32(id,value);
-            replace(target,new_item);
+            target = replaceValue(target,getPool()->tagInt32(id,value));
         }
          
     }
@@ -817,8 +827,7 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         }
         else
         {
-            BW_element *new_item = getPool()->tagInt64(id,value);
-            replace(target,new_item);
+            target = replaceValue(target,getPool()->tagInt64(id,value));
         }
          
     }
@@ -828,6 +837,7 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
 BW_element  *BW_element::tagSetString(int16_t id,const char *value)
 {
     if (THIS_IS_NULL) return nullptr;
+    if (value == nullptr) value = "";
 
     BW_element *target = tagGet(id);
     if (target == nullptr) // no previous value - ok, create new
@@ -840,7 +850,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         bool to_replace = (target->value_type != XBT_STRING);
         if (!to_replace) // check size
         {
-            int value_len = (value != nullptr ? strlen(value) : 0);
+            int value_len = strlen(value);
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
@@ -850,8 +860,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         }
         if (to_replace)
         {
-            BW_element *new_item = getPool()->tagString(id,value);
-            replace(target,new_item);
+            target = replaceValue(target,getPool()->tagString(id,value));
         }
          
     }
@@ -865,8 +874,8 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(2151,target->value_type == XBT_UNIX_TIME);
+        *reinterpret_cast<uint32_t*>(target+1) = (uint32_t)value;
     }
     else
     {
@@ -1039,29 +1048,26 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
+    if (value == nullptr) value = "";
     if (strcmp(data_ref.content,value) == 0) return false; // no change
 
-    int value_len = value != nullptr ? strlen(value) : 0;
+    int value_len = strlen(value);
 
     if (value_len + 1 <=  data_ref.content_size)
+        strcpy(data_ref.content,value);
+    else // must reallocate
     {
-        if (value == nullptr)
-            data_ref.content[0] = '\0'; // empty string terminated
+        BW_element *new_value;
+        if (flags & BIN_WRITE_ELEMENT_FLAG)
+            new_value = W->tagStr(identification,value);
         else
-            strcpy(data_ref.content,value);
-    }
-    else // must reallocate and it is not so easy
-    {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
-
-        parent->remove(this);
-
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
-        new_value->first_attribute = _first_attribute;
+        {
+            new_value = getPool()->new_element(XBT_STRING,value_len);
+            ASSERT_NO_RET_FALSE(2152,new_value != nullptr);
+            new_value->init(getPool(),identification,XBT_STRING,BIN_WRITE_ATTR_FLAG);
+            strcpy(reinterpret_cast<char*>(new_value+1),value);
+        }
+        ASSERT_NO_RET_FALSE(2153,parent->replaceValue(this,new_value) != nullptr); // the same position
     }
     return true;
 }
@@ -1771,9 +1777,10 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
 {
     CHECK_TAG_TYPE(2015,id,XBT_STRING);
 
-    int value_len = (value != nullptr ? strlen(value) : 0);
+    if (value == nullptr) value = "";
+    int value_len = strlen(value);
 
-    BW_element* result = new_element(XBT_STRING,value_len+1);
+    BW_element* result = new_element(XBT_STRING,value_len);
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
@@ -1803,7 +1810,8 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr) // otherwise zeroes
+        memcpy(result+1,value,20);
     return result;
 }
 
@@ -2419,6 +2427,7 @@ BW_element* BW_plugin::tagStr(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(1127,tag_type == XBT_STRING || tag_type == XBT_VARIANT || tag_type == XBT_BLOB_STRING);
     if (tag_type == XBT_VARIANT) tag_type = XBT_STRING;
 
+    if (value == nullptr) value = "";
     int value_len = strlen(value);
     ASSERT_NO_RET_NULL(1146,makeSpace(BW2_INITIAL_FILE_SIZE+value_len*2));
 
-- 
2.43.0


From 661810496edfe96c19703de4a07d28979b96706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 38/67] fix: search by parameter compares whole values, keys of
 different tags are not equal

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0005962..4a5584b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1112,8 +1112,8 @@ BW_element  *BW_element::findChildByParam(int16_t tag_id,int16_t attr_id,XML_Bin
                     if (attr->identification == attr_id) // ok, now I will know!
                     {
                     // I have value_type, data & data_size to compare with ...
-                        int cmp = XBT_Compare(static_cast<XML_Binary_Type>(attr->value_type),reinterpret_cast<void*>(attr+1),
-                                                XBT_Size2(static_cast<XML_Binary_Type>(attr->value_type),0),
+                        XML_Binary_Data_Ref attr_data = attr->getData();
+                        int cmp = XBT_Compare(attr_data.type,attr_data.content,attr_data.content_size,
                                               value_type,data,data_size);
                         if (cmp == 0)
                             return child;
@@ -1178,6 +1178,7 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 // when some element miss, it should return false
 {
     if (src == nullptr) return false;
+    if (identification != (int16_t)src->name) return false; // other tag
 
     // I must remember all processed keys
     int checked_params[MAX_PARAM_KEYS];
-- 
2.43.0


From bccd2151119b4e26ae33c1efda5bf0701088db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 39/67] fix: pointer to time has type of stored value

---
 include/binary_xml/bin_write_plugin.h | 2 +-
 src/bin_write_plugin.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index f851ffb..45dbc94 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -223,7 +223,7 @@ public:
 
     int32_t     *getInt32();
     float       *getFloat();
-    time_t      *getTime();
+    uint32_t    *getTime();
     int64_t     *getInt64();
     uint64_t    *getUInt64();
     GUID_t      *getGUID();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 4a5584b..aad40ce 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -940,7 +940,7 @@ float *BW_element::getFloat()
 }
 
 
-time_t *BW_element::getTime()
+uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
@@ -951,7 +951,7 @@ time_t *BW_element::getTime()
         return nullptr;
     }
 
-    return reinterpret_cast<time_t*>(this+1); // just after this element
+    return reinterpret_cast<uint32_t*>(this+1); // just after this element
 }
 
 int64_t *BW_element::getInt64()
-- 
2.43.0


From 75c73f0e0950d5c13c6d4f0c5bd9e760c611f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 40/67] fix: copied path contains value of the last element,
 incomplete copy is reported

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 25 +++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index 45dbc94..b4eae66 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -332,6 +332,7 @@ public: // tag creation
     
     BW_element*     CopyPath(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
+    BW_element*     CopyTag(XML_Item *src,bool with_value);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index aad40ce..519eabd 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2700,11 +2700,14 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
     ASSERT_NO_RET_NULL(1975,root == xb.getRoot());
 
 // destination root
+    XML_Item *next = va_arg(ap,XML_Item *); // value is copied only with whole last element
     BW_element* root2;
     bool copy;
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = CopyTag(root,copy_whole_last_node && next == nullptr);
+        ASSERT_NO_RET_NULL(2155,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2717,7 +2720,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *root3 = CopyTag(root,copy_whole_last_node && next == nullptr);
+                ASSERT_NO_RET_NULL(2156,root3 != nullptr);
+                root2->first_child = root3->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
@@ -2739,7 +2744,8 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 
     for(;;)
     {
-        XML_Item *element = va_arg(ap,XML_Item *);
+        XML_Item *element = next;
+        next = (element != nullptr ? va_arg(ap,XML_Item *) : nullptr);
         if (element == nullptr) 
         {
             // Recursive copy of last element
@@ -2773,7 +2779,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = CopyTag(element,copy_whole_last_node && next == nullptr);
+            ASSERT_NO_RET_NULL(2157,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
@@ -2785,6 +2793,14 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
     return dst;
 }
 
+BW_element*     BW_plugin::CopyTag(XML_Item *src,bool with_value)
+{
+    if (!with_value) return tag(src->name);
+
+    XML_Binary_Data_Ref data = src->getData();
+    return tagData(src->name,data);
+}
+
 BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
 {
 // this should recursively copy whole subtree of src
@@ -2804,6 +2820,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
         XML_Item *child = src->getChildByIndex(i);
         XML_Binary_Data_Ref data = child->getData();
         BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        ASSERT_NO_RET_NULL(2154,child2 != nullptr); // incomplete copy
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From 07b997f0ea8d4f3f43cca177ce02cd06c6326b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 41/67] fix: builtin tags and attributes of .xbw document keep
 their names in .xb file

---
 src/bin_xml_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6fec3c5..1f62e29 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1359,6 +1359,9 @@ int Bin_xml_creator::Find(const char *symbol,const int t)
         else
             B = M+1;
     }
+// builtin symbols are not in table
+    for(int id = -2;id > (t == SYMBOL_TABLE_NODES ? static_cast<int>(XTNR_LAST) : static_cast<int>(XPNR_LAST));id--)
+        if (strcmp(symbol,t == SYMBOL_TABLE_NODES ? XTNR2str(id) : XPNR2str(id)) == 0) return id;
     return -1; // not found
 }
 
-- 
2.43.0


From 1ff2e9c24428904eda1b13a9a3cd50af9dad9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 42/67] fix: BLOB_STRING values are written whole, element
 without attributes can be printed

---
 src/bin_write_plugin.cpp | 3 ++-
 src/bin_xml_types.cpp    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 519eabd..a25a62f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2853,7 +2853,7 @@ const char *BW_plugin::getNodeBinValue(void *element,XML_Binary_Type &type,int &
     BW_element *E = reinterpret_cast<BW_element*>(element);
     type = static_cast<XML_Binary_Type>(E->value_type);
     
-    if (type == XBT_BLOB || type == XBT_HEX)
+    if (XBT_IS_VARSIZE(type))
         size = *reinterpret_cast<int32_t*>(E+1);
     else if (type == XBT_STRING)
         size = strlen(reinterpret_cast<char*>(E+1));
@@ -2911,6 +2911,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index d0c8ea1..6592b11 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -499,6 +499,8 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
 {
     int value_size = XBT_Size2(type,size);
     int align_size = XBT_Align(type);
+    if (type == XBT_BLOB_STRING)
+        value_size = sizeof(int32_t) + size; // space was reserved when value was created
     if (limit - *_wp < value_size + align_size) 
     {
         LOG(ANSI_RED_BRIGHT "XBT_Copy: type=%s no space (%d) for value (%d+%d)\n",XML_BINARY_TYPE_NAMES[type],(int)(limit - *_wp),(int)value_size,(int)align_size);
-- 
2.43.0


From 739cd553be0b8598c555733dbbf1fb559df0f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 43/67] fix: element with unknown name is not written to .xb
 file

---
 src/bin_xml_creator.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 1f62e29..ff703f3 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -899,7 +899,13 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
-    X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
+    const char *node_name = src->getNodeName(element);
+    X->name = Find(node_name,SYMBOL_TABLE_NODES);
+    if (X->name == XTNR_NULL && node_name != nullptr && strcmp(node_name,XTNR2str(XTNR_NULL)) != 0)
+    {
+        LOG_ERROR("[A1208] Tag %s is not in symbol table",node_name);
+        return nullptr;
+    }
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -984,6 +990,11 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 //    int name_id = 
         xstore_data->params->name = 
         xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (xstore_data->params->name == XPNR_NULL)
+    {
+        LOG_ERROR("[A1209] Attribute %s is not in symbol table",param_name);
+        xstore_data->failed = true;
+    }
 
     if (param_value == nullptr || type == XBT_NULL)
     {
-- 
2.43.0


From 07213366dd585dccf6037aa062c568775a41a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 44/67] fix: creator can be used repeatedly

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 29 +++++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index a0ab773..fff5044 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -115,6 +115,7 @@ public:
     bool DoAll();
        bool Make_xb();
        bool Make_xbw();
+    void FreeSymbolTables();
         bool CopySymbolTable();
         bool MakeSymbolTable();
     bool Append(void *element);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ff703f3..70e5248 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -327,27 +327,32 @@ Bin_xml_creator::~Bin_xml_creator()
         src = nullptr;
         src_allocated = false;
     }
+    FreeSymbolTables();
+    if (dst_file != -1)
+    { // dst_file can be closed in destructor
+        close(dst_file);
+        dst_file = -1; 
+    }
+    free(data);
+    data = nullptr;
+    if (dst != nullptr)
+        delete [] dst; 
+}
+
+void Bin_xml_creator::FreeSymbolTables()
+{
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
         for(int i = 0;i < symbol_count[t];i++)
         {
             free((void*)symbol_table[t][i]);
         }
-        delete [] symbol_table[t];
-        delete [] symbol_table_types[t];
+        free(symbol_table[t]);
+        free(symbol_table_types[t]);
         symbol_table[t] = nullptr;
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
     }
-    if (dst_file != -1)
-    { // dst_file can be closed in destructor
-        close(dst_file);
-        dst_file = -1; 
-    }
-    free(data);
-    data = nullptr;
-    if (dst != nullptr)
-        delete [] dst; 
 }
 
 //-------------------------------------------------------------------------------------------------
@@ -376,6 +381,7 @@ bool Bin_xml_creator::Make_xb()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
+    FreeSymbolTables(); // of previous run
     CopySymbolTable() || MakeSymbolTable();
     // 2. show stats---------------------------------
 
@@ -674,6 +680,7 @@ bool Bin_xml_creator::Make_xbw()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
+    FreeSymbolTables(); // of previous run
     CopySymbolTable() || MakeSymbolTable();
     // 2. show stats---------------------------------
     // I have completed 2x2 arrays
-- 
2.43.0


From 0a0258d790d5f914ea917494b42467d9a86df853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 45/67] fix: source file of unknown type is reported as failure

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 70e5248..78b7849 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -370,6 +370,7 @@ bool Bin_xml_creator::DoAll()
 
 bool Bin_xml_creator::Make_xb()
 {
+    if (src == nullptr) return false; // unknown type of source file
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
@@ -669,6 +670,7 @@ struct MakingXBW_1node
 
 bool Bin_xml_creator::Make_xbw()
 {
+    if (src == nullptr) return false; // unknown type of source file
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
-- 
2.43.0


From 2d32e37a08f1aba519c532ea318e1f66aee2c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 46/67] fix: typed getters refuse element without value of
 their size

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a25a62f..3aeafd6 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -915,7 +915,7 @@ int32_t *BW_element::getInt32()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (!XBT_IS_4(attr_type))
+    if (!XBT_IS_4(attr_type) || !XBT_IS_4(value_type)) // element can be without value
     {
         LOG_ERROR("[1173] +%d %s'type = %d = %s but XBT_INT32 is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -930,7 +930,7 @@ float *BW_element::getFloat()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_FLOAT)
+    if (attr_type != XBT_FLOAT || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[10430] +%d %s'type = %d = %s but XBT_FLOAT is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -945,7 +945,7 @@ uint32_t *BW_element::getTime()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UNIX_TIME)
+    if (attr_type != XBT_UNIX_TIME || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[2122] +%d %s'type = %d = %s but XBT_UNIX_TIME is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -960,7 +960,7 @@ int64_t *BW_element::getInt64()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
+    if ((attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC) || !XBT_IS_8(value_type))
     {
         //ASSERT_NO_RET_NULL(2026,attr_type == XBT_INT64 || value_type == XBT_INT64);// || attr_type == XBT_VARIANT);
         LOG_ERROR("[2026] +%d %s'type = %d/%d = %s/%s but XBT_INT64/XBT_UNIX_TIME64_MSEC is expected!",
@@ -978,7 +978,7 @@ uint64_t *BW_element::getUInt64()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UINT64)
+    if (attr_type != XBT_UINT64 || !XBT_IS_8(value_type))
     {
         LOG_ERROR("[2096] +%d %s'type = %d/%d = %s/%s but XBT_UINT64 is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
@@ -993,7 +993,7 @@ GUID_t *BW_element::getGUID()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_GUID)
+    if (attr_type != XBT_GUID || value_type != XBT_GUID)
     {
         LOG_ERROR("[10435] +%d %s'type = %d/%d = %s/%s but XBT_GUID is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
-- 
2.43.0


From 0f94b7462dde329f731aef471582989e5a67fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 47/67] fix: import of empty dictionary does not switch off
 searching of names

---
 src/bin_write_plugin.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3aeafd6..1008dab 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2265,33 +2265,32 @@ bool BW_plugin::alterAttr(int16_t id,XML_Binary_Type type)
 }
 void BW_plugin::importTags(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
 
-    if (src == nullptr) return; // OK
-
     for(int i = 0;i < src->tag_symbols.count;i++)
         registerTag(
                 src->tag_symbols.getSymbol(i),
                 static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
 
-    if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->tags.flags &= ~BW_SYMBOLS_FAST_REG; // names are searched again, even when nothing was imported
 }
 
 void BW_plugin::importParams(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
-    if (src == nullptr) return; // OK
 
     for(int i = 0;i < src->param_symbols.count;i++)
         registerParam(src->param_symbols.
             getSymbol(i),
             static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
 
-    if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->params.flags &= ~BW_SYMBOLS_FAST_REG; // names are searched again, even when nothing was imported
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From e214e0868b6b792e367ada70420c2dfa27b302a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 48/67] fix: mismatch of symbols is reported for document
 without attributes

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1008dab..13d05d6 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2304,7 +2304,7 @@ bool BW_plugin::allRegistered()
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-    return true;
+    return !check_only || check_failures == 0; // no problems?
 }
 
 void BW_plugin::setRoot(const BW_element* X)
-- 
2.43.0


From 90b386534f1915da4cb4bff6cd3340a3e60def4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 49/67] fix: name of document with damaged root does not
 recurse endlessly

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 13d05d6..2352e84 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1647,7 +1647,8 @@ const char *BW_pool::getDocTypeName()
     if (plugin != nullptr && plugin->isInitialized() && root > getPoolSize() && root < allocator) // content is verified
     {
         BW_element *root = BWE(this->root);   
-        ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
+        if ((root->flags & BIN_WRITE_ELEMENT_FLAG) == 0) return "(bad root flags)"; // assertion would ask for the name again
+        if (root->identification > tags.max_id) return "(bad root id)";
         const char *name = tags.getName(this,root->identification);    
         if (name != nullptr) return name;
     }
-- 
2.43.0


From ff67c1a157b5c64c06cdd9cfd48c268eac40730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 50/67] fix: registration of symbol near the limit keeps space
 for index of symbols

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index b4eae66..df0816c 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -289,6 +289,7 @@ public:
     int         getFd() { return fd; }
     bool        isInitialized() { return initialized;}
     bool makeSpace(int size);
+    bool makeSpaceForSymbol(const char *name);
 
     bool registerTag(int16_t id,const char *name,XML_Binary_Type type);
     bool registerAttr(int16_t id,const char *name,XML_Binary_Type type);
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2352e84..da6490f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2055,6 +2055,14 @@ bool BW_plugin::makeSpace(int size)
     return true;
 }
 
+bool BW_plugin::makeSpaceForSymbol(const char *name)
+// When symbol table is opened, it has no index and symbols are not available until allRegistered(), which must not fail then.
+{
+    int names_size = pool->tags.getNamesSize(pool) + pool->params.getNamesSize(pool); // tables can be copied
+    int index_size = (pool->tags.max_id + 1 + pool->params.max_id + 1 + 1) * sizeof(BW_offset_t);
+    return makeSpace(BW2_INITIAL_FILE_SIZE + names_size + strlen(name) + 8 + index_size);
+}
+
 bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // I want to fill symbol tables with element names    
 // element names starts at offset pool->tags.names_offset and ends at pool->params.offset
@@ -2075,6 +2083,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         return false;
     }
     ASSERT_NO_RET_FALSE(2139,id >= 0 && id == pool->tags.max_id+1); // names are stored in order of ids, without gaps
+    ASSERT_NO_RET_FALSE(2170,makeSpaceForSymbol(name));
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2127,6 +2136,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_FALSE(1115,pool->tags.names_offset != 0);
     ASSERT_NO_RET_FALSE(2140,id >= 0 && id == pool->params.max_id+1); // names are stored in order of ids, without gaps
+    ASSERT_NO_RET_FALSE(2171,makeSpaceForSymbol(name));
     ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
 
 // root must be later
@@ -2178,6 +2188,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
         }
     }
     ASSERT_NO_RET_(2143,pool->tags.max_id < INT16_MAX,XTNR_NULL); // no free id
+    ASSERT_NO_RET_(2172,makeSpaceForSymbol(name),XTNR_NULL);
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
     int len = strlen(name);
@@ -2224,6 +2235,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
     ASSERT_NO_RET_(2144,pool->params.max_id < INT16_MAX,XPNR_NULL); // no free id
+    ASSERT_NO_RET_(2173,makeSpaceForSymbol(name),XPNR_NULL);
 // must be opened
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
-- 
2.43.0


From c81f39563dd1aed02c6b15c954ef4aaa31070ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 51/67] fix: tagData stores value of any type in element of
 type VARIANT

---
 src/bin_write_plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index da6490f..6468dba 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2665,6 +2665,8 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         return tag(id);
 
     XML_Binary_Type tag_type = pool->getTagType(id);
+    if (tag_type == XBT_VARIANT)
+        tag_type = data.type;
     if (tag_type != data.type)
     {
         ASSERT_NO_RET_NULL(2001,data.type == XBT_STRING); // only supported conversion
-- 
2.43.0


From 80fc76f419a0dc3802274247124097d60250d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 52/67] fix: CopyTag and CopyAll keep types of values different
 from their symbols and texts which conversion would change

---
 src/bin_write_plugin.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 6468dba..7af67a8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -678,11 +678,32 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 
 }
 
+static bool s_IsConvertedByCopy(XML_Binary_Type dst_type,const XML_Binary_Data_Ref &data)
+// Only text, which is the same after conversion, is stored with type of symbol, other values keep their type
+{
+    return data.type == XBT_STRING && dst_type != XBT_STRING && dst_type != XBT_VARIANT && XBT_IsExact(dst_type,data.data);
+}
+
+static BW_element *s_CopyValue(BW_pool *pool,int16_t id,const XML_Binary_Data_Ref &data,int flags)
+{
+    BW_element *result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    if (result == nullptr) return nullptr; // error message already shown in allocate
+    result->init(pool,id,data.type,flags);
+    if (data.size > 0) memcpy(result+1,data.data,data.size); // copy content
+    return result;
+}
+
 BW_element*     BW_element::attrCopy(XB_reader &xb,XML_Item *X,XML_Param_Description *param_desc)
 {
     if (THIS_IS_NULL) return nullptr;
     XML_Binary_Data_Ref data = param_desc->getData(X);
-    return attrData(param_desc->name,data);
+    if (s_IsConvertedByCopy(getPool()->getAttrType(param_desc->name),data))
+        return attrData(param_desc->name,data);
+
+    BW_element *attr = s_CopyValue(getPool(),param_desc->name,data,BIN_WRITE_ATTR_FLAG);
+    ASSERT_NO_RET_NULL(2158,attr != nullptr);
+    add(attr);
+    return this;
 }
 
 BW_element  *BW_element::attrGet(int16_t id)
@@ -2812,7 +2833,11 @@ BW_element*     BW_plugin::CopyTag(XML_Item *src,bool with_value)
     if (!with_value) return tag(src->name);
 
     XML_Binary_Data_Ref data = src->getData();
-    return tagData(src->name,data);
+    if (data.type == XBT_NULL || s_IsConvertedByCopy(pool->getTagType(src->name),data)) 
+        return tagData(src->name,data);
+
+    ASSERT_NO_RET_NULL(2159,makeSpace(BW2_INITIAL_FILE_SIZE+8+data.size));
+    return s_CopyValue(pool,src->name,data,BIN_WRITE_ELEMENT_FLAG);
 }
 
 BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
@@ -2832,8 +2857,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
     for(int i = 0;i < src->childcount;i++)
     {
         XML_Item *child = src->getChildByIndex(i);
-        XML_Binary_Data_Ref data = child->getData();
-        BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        BW_element *child2 = CopyAll(CopyTag(child,true),xb,child);
         ASSERT_NO_RET_NULL(2154,child2 != nullptr); // incomplete copy
         dst->add(child2);
     }
-- 
2.43.0


From 6cfda09d8efe83f1410bf5477508120f96aa4a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 53/67] fix: GetXB returned a wrong name of the binary file for
 .wsdl source

---
 src/bin_xml_packer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index e63642e..79395d0 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -376,6 +376,7 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
     strcpy(xb_filename,xml_filename);
     xb_filename[len-1] = 0;
     xb_filename[len-2] = 'b';
+    xb_filename[len-3] = 'x'; // .wsdl
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From ba9a3b05945f854d1532aca04cff79b5e0cddcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 54/67] fix: name and value of JSON member used one buffer,
 conversion depended on the order of evaluation of arguments

---
 src/bin_json_plugin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 517a548..e619906 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -247,9 +247,9 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_value,source + X->start,X->end - X->start);
-	last_value[X->end - X->start] = 0;
-	return last_value;
+	strncpy(last_str,source + X->start,X->end - X->start);
+	last_str[X->end - X->start] = 0;
+	return last_str;
 }
 
 const char *Bin_json_plugin::getNodeValue(void *element)
-- 
2.43.0


From fb659bb55676f5778e08ddacbd185756d2ceec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 55/67] fix: conversion aborted when the destination could be
 written only partly

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index fff5044..fc292e4 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -130,6 +130,7 @@ protected:
         static void SecondPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
         
         bool AllocData(int64_t size);
+        bool WriteAll(int fd,const char *data,int64_t size);
         int64_t MeasureNode(void *element);
         static void XMeasureNodeEvent(void *element,void *userdata);
         static void XMeasureBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 78b7849..2b9d42a 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -415,10 +415,10 @@ bool Bin_xml_creator::Make_xb()
             return false;
         }
         AA(dst_file_size);
-        int written = write(dst_file,data,dst_file_size);
-        assert(written == dst_file_size);
+        bool ok = WriteAll(dst_file,data,dst_file_size);
 
         close(dst_file);
+        if (!ok) return false;
     }
 #endif
 
@@ -433,14 +433,30 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     AA(dst_file_size);
-    int written = 
-        write(dst_file,data,dst_file_size);
-    assert(written == dst_file_size);
+    bool ok = WriteAll(dst_file,data,dst_file_size);
 
     close(dst_file);
 
 
-    return (written == dst_file_size);
+    return ok;
+}
+
+bool Bin_xml_creator::WriteAll(int fd,const char *data,int64_t size)
+// write can be done only partly
+{
+    while (size > 0)
+    {
+        ssize_t written = write(fd,data,size);
+        if (written < 0 && errno == EINTR) continue;
+        if (written <= 0)
+        {
+            std::cerr << "error: " << strerror(errno) << " while writing " << size << "B to " << dst << "\n";
+            return false;
+        }
+        data += written;
+        size -= written;
+    }
+    return true;
 }
 
 bool Bin_xml_creator::AllocData(int64_t size)
-- 
2.43.0


From 57ba7e4ab2fb10aba096c8f1236a72f7bf93cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 56/67] fix: failed append left a part of the element in the
 file, later elements were lost

---
 src/bin_xml_creator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 2b9d42a..e3105bb 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -616,10 +616,12 @@ bool Bin_xml_creator::Append(void *element)
     if (this->WriteNode(&wp,element) == nullptr) return false;
     
     int size = wp - data - file_align;
-    int written = write(dst_file,data+file_align,size);
-    if (written != size)
+    if (!WriteAll(dst_file,data+file_align,size))
     {
-            std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
+            std::cerr << "error: cannot append " << size << "B\n";
+            // part of element would hide all later elements
+            if (ftruncate(dst_file,file_info.st_size) < 0)
+                ERRNO_SHOW(2174,"ftruncate",dst);
             return false;
     }
     
-- 
2.43.0


From 14773c41db561127eb943a7c1010a5cbe91ba849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 57/67] fix: conversion to .xbw ended the process or lost
 content when the document could not grow

---
 src/bin_xml_creator.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e3105bb..6b2b2bf 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -684,6 +684,7 @@ struct MakingXBW_1node
     BW_element      *dst_bw_element;
     const char      *param_name;
     const char      *param_value;
+    bool            failed;     // this element or something in it is not stored
 };
 
 bool Bin_xml_creator::Make_xbw()
@@ -726,10 +727,10 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        ASSERT_NO_RET_FALSE(2175,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        ASSERT_NO_RET_FALSE(2176,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
@@ -741,9 +742,10 @@ bool Bin_xml_creator::Make_xbw()
     node_info.dst_bw_element = nullptr;
     node_info.param_name = nullptr;
     node_info.param_value = nullptr;
+    node_info.failed = false;
 
     XStore2XBWEvent(root,&node_info);
-    ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
+    ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr && !node_info.failed);
     W.setRoot(node_info.dst_bw_element);
 //typedef void (*OnElement_t)(void *element,void *userdata);
 
@@ -1194,17 +1196,18 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
         int size2 = XBT_Size2(tag_type,size);
         //int align = XBT_Align(tag_type);
         
-        ASSERT_NO_EXIT_1(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
+        ASSERT_NO_RET(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
 
-        BW_element *dst = node_info->dst_bw_element = pool->new_element(tag_type,size);
+        BW_element *dst = pool->new_element(tag_type,size);
         //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
-        ASSERT_NO_EXIT_1(2074,dst != nullptr);
+        ASSERT_NO_RET(2074,dst != nullptr);
         dst->identification = id;
         dst->flags = flags;; // element and not attribute
     // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
         char *wp = reinterpret_cast<char*>(dst+1);
         char *limit = wp + size2;
-        ASSERT_NO_EXIT_1(2062,XBT_FromString(value,tag_type,&wp,limit));
+        ASSERT_NO_RET(2062,XBT_FromString(value,tag_type,&wp,limit));
+        node_info->dst_bw_element = dst;
     }
     else
     { // xbw2xbw variant
@@ -1238,6 +1241,8 @@ void Bin_xml_creator::XBWStoreParamsEvent(const char *param_name,const char *par
 
     ASSERT_NO_RET(2090,node_info->dst_bw_element != nullptr);
 
+    if (node_info->failed) return; // there is no reason to continue
+
     MakingXBW_1node subnode_info = *node_info;
     subnode_info.src_element = element;
     subnode_info.dst_bw_element = nullptr;
@@ -1252,6 +1257,8 @@ void Bin_xml_creator::XBWStoreParamsEvent(const char *param_name,const char *par
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    if (subnode_info.dst_bw_element == nullptr || subnode_info.failed)
+        node_info->failed = true;
 }
 
 void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
@@ -1260,6 +1267,8 @@ void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
 
     ASSERT_NO_RET(2135,node_info->dst_bw_element != nullptr);
 
+    if (node_info->failed) return; // there is no reason to continue
+
     MakingXBW_1node subnode_info = *node_info;
     subnode_info.src_element = element;
     subnode_info.dst_bw_element = nullptr;
@@ -1271,6 +1280,8 @@ void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    if (subnode_info.dst_bw_element == nullptr || subnode_info.failed)
+        node_info->failed = true;
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From a1cc0abe8931e356fc454a0ea25725de8bc381f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 58/67] fix: JSON source was used with wrong size when its size
 could not be found again

---
 src/bin_xml_creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6b2b2bf..6d8d471 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -55,7 +55,9 @@ const char *Bin_src_plugin::getSymbol(SymbolTableTypes table,int idx,XML_Binary_
 
 void Bin_src_plugin::updateFileSize()
 {
-    this->file_size = file_getsize(filename);
+    int new_size = file_getsize(filename);
+    if (new_size >= 0) // last known size is still used by plugin
+        this->file_size = new_size;
 }
 
 void Bin_src_plugin::setFilename(const char *filename,const char *extension,const char *target_dir)
-- 
2.43.0


From 5ee9c57092502bf1a6c9954a15da8a9f5453cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 59/67] fix: appended element lost textual attribute, when its
 name is not in symbol table

---
 src/bin_xml_creator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6d8d471..6ef274b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1080,6 +1080,11 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (name_id == XPNR_NULL)
+    {
+        LOG_ERROR("[A2177] Attribute %s is not in symbol table",param_name);
+        xstore_data->failed = true;
+    }
 
     if (param_value == nullptr || *param_value == '\0')
     {
-- 
2.43.0


From 5d5479ae22d8921d1d477f3d2d438688f04c7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 60/67] fix: values of XML and JSON sources were lost in
 operator<< of source plugin

---
 src/bin_xml_creator.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6ef274b..0dc738f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -165,7 +165,8 @@ void Bin_src_plugin::s_OnBinParam2Stream(const char *param_name,int param_id,XML
 
     CTX->os << " " << param_name << "=\"";
     // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-    XBT_ToXMLStream(type,param_value,CTX->os,true);
+    if (param_value != nullptr)
+        XBT_ToXMLStream(type,param_value,CTX->os,true);
     CTX->os << "\"";
 }
 
@@ -174,10 +175,19 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t *CTX = reinterpret_cast<BIN_SRC_PLUGIN2STREAM_CONTEXT_t *>(userdata);
 
     CTX->os << " " << param_name << "=\"";
-    XBT_EscapeXML(param_value,strlen(param_value),CTX->os,true);
+    if (param_value != nullptr)
+        XBT_EscapeXML(param_value,strlen(param_value),CTX->os,true);
     CTX->os << "\"";
 }
 
+static void s_Value2Stream(XML_Binary_Type type,const char *value,std::ostream &os)
+{
+    if (type == XBT_UNKNOWN) // source has only text value
+        XBT_EscapeXML(value,strlen(value),os);
+    else
+        XBT_ToXMLStream(type,value,os);
+}
+
 // typedef void (*OnElementRec_t)(void *element,void *userdata,int deep);
 void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 {
@@ -193,7 +203,9 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     for(int t = 0;t < deep;t++) CTX->os << "\t";
 
 
-    CTX->os << "<" << CTX->src->getNodeName(element);
+    const char *node_name = CTX->src->getNodeName(element);
+    std::string name(node_name != nullptr ? node_name : XTNR2str(XTNR_NULL)); // root of JSON has no name
+    CTX->os << "<" << name;
     // bool ForAllBinParams(OnBinParam_t on_param,void *element,void *userdata)
     if (!CTX->src->ForAllBinParams(s_OnBinParam2Stream,element,userdata))
     {
@@ -209,30 +221,31 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 
 
 // value info
-    XML_Binary_Type value_type;
+    XML_Binary_Type value_type = XBT_UNKNOWN;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN && element != nullptr) // getNodeBinValue is not supported
+        value = CTX->src->getNodeValue(element);
 
     if (CTX->sibling_count == 0) 
         if (value == nullptr) CTX->os << "/>\n";
         else
         {
             CTX->os << ">";
-            // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
-            XBT_ToXMLStream(value_type,value,CTX->os);
-            CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+            s_Value2Stream(value_type,value,CTX->os);
+            CTX->os << "</" << name << ">\n";
         }
     else
     {
-        if (value_type != XBT_NULL)
+        if (value != nullptr)
         {
             for(int t = 0;t < deep+1;t++) CTX->os << "\t";
-            XBT_ToXMLStream(value_type,value,CTX->os);
+            s_Value2Stream(value_type,value,CTX->os);
 
             CTX->os << "\n";    
         }
         for(int t = 0;t < deep;t++) CTX->os << "\t";
-        CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+        CTX->os << "</" << name << ">\n";
     }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From 5853b632bf09075eb75473b641c1285f42f265f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 61/67] fix: setFilename of source accepts its own current name

---
 src/bin_xml_creator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 0dc738f..185109d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -62,9 +62,10 @@ void Bin_src_plugin::updateFileSize()
 
 void Bin_src_plugin::setFilename(const char *filename,const char *extension,const char *target_dir)
 {
+    const char *new_filename = AllocFilenameChangeExt(filename,extension,target_dir); // filename can be the current one
     if (this->filename)
         delete [] this->filename;
-    this->filename = AllocFilenameChangeExt(filename,extension,target_dir);
+    this->filename = new_filename;
 }
 
 void Bin_src_plugin::setFilenameFmt(const char *filename,...)
-- 
2.43.0


From 5596797df169b32f86688a03046c0381cd65c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 62/67] fix: reader opened again forgets name tables of the
 previous file

---
 src/bin_xml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 80eceb3..53cd0f0 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -684,6 +684,9 @@ bool _XB_symbol_table::Load(XML_Item *container)
 // or in <param_symbols ...> element
 {
     item_container = container;
+    count = type_count = 0; // nothing stays from previous file
+    reference_array = nullptr;
+    type_array = nullptr;
     int32_t symbol_count = container->getParamByName(XPNR_COUNT)->getInt(container);
     if (symbol_count == INT32_NULL || symbol_count < 0) return false;
     if (symbol_count == 0) return true; // ok, no symbols
-- 
2.43.0


From ac5f6e853fe23d95db459f08acb853cd76c65773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 63/67] fix: element with more than 32767 attributes aborted
 the conversion or overflowed the count

---
 src/bin_xml_creator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 185109d..9854c22 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -955,6 +955,11 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
         src->ForAllParams(XCountParamsEvent,element,X);
+    if (X->paramcount < 0)
+    {
+        LOG_ERROR("[A2178] Tag %s has too many attributes",node_name);
+        return nullptr;
+    }
     
     X->childcount = 0;  // count them
     src->ForAllChildren(XCountChildrenEvent,element,X);
@@ -1015,12 +1020,14 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
 
 void Bin_xml_creator::XCountBinParamsEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
 {
-    reinterpret_cast<XML_Item*>(userdata)->paramcount++; // how much they are
+    XML_Item *X = reinterpret_cast<XML_Item*>(userdata);
+    if (X->paramcount >= 0) X->paramcount++; // how much they are, negative = too many
 }
 
 void Bin_xml_creator::XCountParamsEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
-    reinterpret_cast<XML_Item*>(userdata)->paramcount++; // how much they are
+    XML_Item *X = reinterpret_cast<XML_Item*>(userdata);
+    if (X->paramcount >= 0) X->paramcount++; // how much they are, negative = too many
 }
 
 void Bin_xml_creator::XCountChildrenEvent(void *element,void *userdata)
-- 
2.43.0


From f057c40aaf04b76490ca715a784800d2d0fe7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 64/67] fix: full document could not be opened again with
 registration

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7af67a8..3a29e99 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2331,11 +2331,11 @@ void BW_plugin::importParams(XB_reader *src)
 
 bool BW_plugin::allRegistered()
 {
-    ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
 //    BW_offset_t names_limit = pool->allocator;
     if (check_only && pool->tags.index != 0 && pool->params.index != 0)
         return (check_failures == 0); // no problems?
 
+    ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
     return !check_only || check_failures == 0; // no problems?
-- 
2.43.0


From beb5005fbe1f72f1481bb68005477f8b646d2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 65/67] fix: XB_reader which failed to unmap its file did not
 close it

---
 src/bin_xml.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 53cd0f0..82f9d21 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -902,12 +902,13 @@ bool XB_reader::Finalize()
 #ifndef NDEBUG
 //    printf("XB_reader::Finalize(%s)\n",this->filename);
 #endif
+    bool ok = true;
     if (doc != MAP_FAILED)
     {
         if (munmap((void*)doc,size) == -1)
         {
             ERRNO_SHOW(1026,"munmap",this->filename);
-            return false;
+            ok = false;
         }
         doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
         data = nullptr;
@@ -917,11 +918,11 @@ bool XB_reader::Finalize()
         if (close(fd) == -1)
         {
             ERRNO_SHOW(1027,"close",this->filename);
-            return false;
+            ok = false;
         }
-        fd = -1;
+        fd = -1; // it is closed even when close reports an error
     }
-    return true;
+    return ok;
 }
 
 bool XB_reader::ParamIsKey(int param_name) const
-- 
2.43.0


From fa5deaf6bae4aff382c17660f37498e4d51383f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 66/67] fix: failed opening of document kept the file open and
 mapped

---
 include/binary_xml/bin_xml.h | 3 +++
 src/bin_xml.cpp              | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index b2bd0e7..efdd312 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -207,6 +207,9 @@ public:
 
     bool Initialize();
     bool Finalize();
+private:
+    bool OpenFile();
+public:
 
     inline const char *getNodeName(tag_name_id_t name_id) const     { return tag_symbols.getSymbol(name_id);}
     inline const char *getParamName(tag_name_id_t name_id) const    { return name_id < 0 ? XPNR2str(name_id) : param_symbols.getSymbol(name_id);}
diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 82f9d21..2d301b9 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -803,6 +803,13 @@ void XB_reader::setVerbosity(int verbosity)
 }
 
 bool XB_reader::Initialize()
+{
+    if (OpenFile()) return true;
+    Finalize(); // nothing will stay opened
+    return false;
+}
+
+bool XB_reader::OpenFile()
 {
 //    printf("XB_reader::Initialize\n");
 //    printf("filename=%s\n",this->filename);
-- 
2.43.0


From 9ef4eeee4d56f47da4fd8e4ba9a989cfe7d89b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 67/67] fix: attribute named et-tecera was renamed to author

---
 src/bin_xml_creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 9854c22..ab750f7 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1421,7 +1421,7 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
 int Bin_xml_creator::Find(const char *symbol,const int t)
 {
     if (symbol == nullptr) return -1;
-    if (strcmp(symbol,"et-tecera") == 0) return XTNR_ET_TECERA;
+    if (t == SYMBOL_TABLE_NODES && strcmp(symbol,"et-tecera") == 0) return XTNR_ET_TECERA;
 
 // binary search
     int B = 0;
-- 
2.43.0

