From a67c49a989f2032743ca245c07913149e1e64957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 01/78] fix: CPackage: do not cast away const in operator<<
 (rejected by conforming compilers)

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..a7a636d 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -282,12 +282,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From 401d3914a95dd7266ff86b5c84c9061e22862565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 02/78] fix: CPackage: assignment operator did not compile

---
 include/CPackage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a7a636d..a692d0a 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
-- 
2.43.0


From 086fb43ae84aa63e585fcba1634dccede83d51e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 03/78] fix: CPackage: reads after a short package,
 unterminated or oversized string or seek left the package

---
 include/CPackage.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a692d0a..ff2bc03 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			else if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
@@ -566,10 +574,16 @@ namespace lce
 
 		void readString(std::string &sData)
 		{
+			if (isEnd(1))
+			{
+				throw Error("data error:no enough buf.");
+			}
 			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
 			int iStrLen = strlen(pData);
 			sData = pData;
 			m_iPos += iStrLen + 1;
+			if (isEnd())
+				m_iPos = getPkgBodyLen(); // last string without terminator
 		}
 
 		void readString1(std::string &sData)
@@ -607,6 +621,10 @@ namespace lce
 			{
 				unsigned int dwLen = ntohl(*(unsigned int *)(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos));
 				m_iPos += 4;
+				if (dwLen > m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos)
+				{
+					throw Error("data error:no enough buf.");
+				}
 				read(sData, dwLen);
 			}
 			else
@@ -634,14 +652,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) - m_iPos > iOffPos && m_iPos + iOffPos >= 0)
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) + iOffPos >= 0)
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
@@ -669,10 +687,12 @@ namespace lce
 		// 设置包体
 		void setPkgBody(const unsigned char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, reinterpret_cast<const char *>(pszBody), iBodyLen);
 		}
 		void setPkgBody(const char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, pszBody, iBodyLen);
 		}
 
-- 
2.43.0


From 3691ce8f8e3d385f814e4da3ee7bc2a2a52709a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 04/78] fix: CBitmap: index equal to the size was accepted, one
 cell past the end

---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..20a5a14 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -65,7 +65,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -167,7 +167,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -184,7 +184,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -267,7 +267,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -283,7 +283,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -366,7 +366,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -383,7 +383,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -466,7 +466,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -482,7 +482,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -565,7 +565,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -581,7 +581,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -663,7 +663,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +673,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From 5c8bd706b94879be056eeec012b5ea98934ba0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 05/78] fix: CBitmap<3>, <5>, <6>: 8-byte accesses ran past the
 segment and cleared neighbouring cells

---
 include/CBitMap.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 20a5a14..845af33 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -272,7 +272,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 8 * 3);
 			dwTmpValue = dwTmpValue & 0x7;
 			return dwTmpValue;
 		}
@@ -292,8 +294,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
@@ -471,7 +476,9 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue = ui64TmpValue >> (dwIndex % 8 * 5);
 			ui64TmpValue = ui64TmpValue & 0x1F;
 			return (int)ui64TmpValue;
 		}
@@ -491,8 +498,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64TmpValue |= ui64Flag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64TmpValue, 5);
 
 			return true;
 		}
@@ -570,7 +580,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 4 * 6);
 			dwTmpValue = dwTmpValue & 0x3F;
 			return dwTmpValue;
 		}
@@ -590,8 +602,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
-- 
2.43.0


From 40a9a5bd45fb237ffe8ca59c154f7233af3b9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 06/78] fix: CLruCache: the configured maximum was ignored and
 exceeded, and evicting every entry left a dangling list head

---
 include/CLruCache.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..a02e1c2 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
@@ -81,6 +81,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
@@ -146,7 +148,7 @@ namespace lce
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
             CAutoLock lock(m_oMutex);
-            if (m_mapCache.size() > m_dwMaxSize)
+            if (m_mapCache.size() >= m_dwMaxSize && m_mapCache.find(tKey) == m_mapCache.end())
             {
                 int i = 0;
                 for (int i = 0; i < CACHE_REMOVE_NUM; i++)
-- 
2.43.0


From 88fa2008804b2fc8ac2937aba20e02f3234d249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 07/78] fix: SplitStr kept part of a long separator; SplitStr
 and ReplaceStr never returned for an empty pattern

---
 include/StringHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..1521fdc 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -26,7 +26,7 @@ namespace lce
 		string::size_type dwLen1 = sFind.size();
 		string::size_type dwLen2 = sReplace.size();
 
-		while ((pos = str.find(sFind, pos)) != string::npos)
+		while (dwLen1 != 0 && (pos = str.find(sFind, pos)) != string::npos)
 		{
 			str.replace(pos, dwLen1, sReplace);
 			pos += dwLen2;
@@ -50,10 +50,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From 10b7ad213173f02aae08dabf35191a045d5a9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 08/78] fix: FormUrlDecode: a percent sign in the last two
 characters threw out_of_range

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..88d2d61 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -530,7 +530,7 @@ namespace lce
             {
                 sResult += ' ';
             }
-            else if (ch == '%')
+            else if (ch == '%' && j + 2 < iLen)
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
-- 
2.43.0


From c3693aaaf7631dbaf0ace81a5367e3443ba206fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 09/78] fix: Gmt2Time: dates from 2036 overflowed int, and text
 ending inside the date was read past its end

---
 src/Utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 88d2d61..658d59a 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -340,6 +340,8 @@ namespace lce
             GC;
         if (day == -1)
         {
+            if (!isdigit(c))
+                return BAD;
             day = c - '0';
             if (isdigit(GC))
             {
@@ -349,6 +351,8 @@ namespace lce
         }
         else
         {
+            if (!isdigit(c))
+                return BAD;
             year = c - '0';
             if (isdigit(GC))
             {
@@ -427,7 +431,7 @@ namespace lce
         if (month > 10)
             year--;
         year = year * 365 + year / 4 + month * 520 / 17 + day;
-        return year * 86400 + sec - 60652800;
+        return (time_t)year * 86400 + sec - 60652800;
     }
 
     std::string FormUrlEncode(const std::string &sSrc)
-- 
2.43.0


From 2c23480237718f4149eef2b9d4b94b4b15d7c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 10/78] fix: CAnyValue assignment: a value's own child was
 freed before it was copied, and assigning null kept the old pointer

---
 include/CAnyValue.h | 49 ++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..f8a26d7 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -233,7 +233,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_ucSubType(DType::Null), m_bInit(false), m_bHasData(false)
         {
             init();
             assign(rhs);
@@ -1926,49 +1926,38 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
-
-            if (rhs.m_ucType == DType::Integer)
-            {
-                m_value.integer = rhs.m_value.integer;
-            }
+            // rhs may live inside our own container: copy it before releasing the old content
+            this_type oTmp;
+            oTmp.m_ucSubType = rhs.m_ucSubType;
+            oTmp.m_bHasData = rhs.m_bHasData;
 
-            if (rhs.m_ucType == DType::SInteger)
+            if (rhs.m_ucType == DType::Integer || rhs.m_ucType == DType::SInteger || rhs.m_ucType == DType::Bool)
             {
-                m_value.integer = rhs.m_value.integer;
+                oTmp.m_value.integer = rhs.m_value.integer;
             }
-
-            if (rhs.m_ucType == DType::Bool)
+            else if (rhs.m_ucType == DType::Float)
             {
-                m_value.integer = rhs.m_value.integer;
+                oTmp.m_value.flValue = rhs.m_value.flValue;
             }
-
-            if (rhs.m_ucType == DType::Float)
-            {
-                m_value.flValue = rhs.m_value.flValue;
-            }
-
             else if (rhs.m_ucType == DType::Map)
             {
-                m_value.map = new MapType(*(rhs.m_value.map));
+                oTmp.m_value.map = new MapType(*(rhs.m_value.map));
             }
             else if (DType::Vector == rhs.m_ucType)
             {
-                m_value.vec = new VecType(*rhs.m_value.vec);
+                oTmp.m_value.vec = new VecType(*rhs.m_value.vec);
             }
             else if (DType::String == rhs.m_ucType)
             {
-                m_value.buf = new BufType((*rhs.m_value.buf));
+                oTmp.m_value.buf = new BufType((*rhs.m_value.buf));
             }
-            m_ucType = rhs.m_ucType;
-            m_ucSubType = rhs.m_ucSubType;
-            m_bHasData = rhs.m_bHasData;
-            m_bInit = rhs.m_bInit;
+            oTmp.m_ucType = rhs.m_ucType;
+
+            // oTmp now owns the copy; its destructor releases our old content
+            std::swap(m_ucType, oTmp.m_ucType);
+            std::swap(m_ucSubType, oTmp.m_ucSubType);
+            std::swap(m_bHasData, oTmp.m_bHasData);
+            std::swap(m_value, oTmp.m_value);
         }
 
     private:
-- 
2.43.0


From aa84e71754461f203415d3267d8ced22713ac927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 11/78] fix: CAnyValue: positive values of signed type above
 127 were cut to one byte when encoded

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f8a26d7..502584a 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1694,18 +1694,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue >= -128 && iValue <= 127)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue >= -32768 && iValue <= 32767)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue >= -2147483648LL && iValue <= 2147483647LL)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From d63e249cdc61d9ac2988a979bfc3013658dfeb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 12/78] fix: CAnyValue binary decoder: unbounded allocation and
 recursion on hostile data, cut-off maps and unknown types accepted, old
 content leaked

---
 include/CAnyValue.h | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 502584a..4897ff0 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -891,6 +891,32 @@ namespace lce
         static std::vector<DECODE_FUNC> m_vecDecodeFuncs;
 
     private:
+        // limits how deep decoded data may nest: decoding and releasing are recursive
+        class CDepthGuard
+        {
+        public:
+            CDepthGuard()
+            {
+                if (depth() >= MAX_DEPTH)
+                {
+                    throw Error("decode data error: nested too deep.");
+                }
+                ++depth();
+            }
+            ~CDepthGuard() { --depth(); }
+
+        private:
+            enum
+            {
+                MAX_DEPTH = 1000
+            };
+            static int &depth()
+            {
+                static __thread int iDepth = 0;
+                return iDepth;
+            }
+        };
+
         static void inline check(const size_t dwPos, const size_t sDataSize)
         {
             if (dwPos > sDataSize)
@@ -1167,6 +1193,7 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            check(dwDecodePos + dwSize, dwDataSize); // every element takes at least one byte
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
@@ -1190,10 +1217,7 @@ namespace lce
                 check(dwDecodePos + ucNameLen, dwDataSize);
                 BufType sName(pData + dwDecodePos, ucNameLen);
                 dwDecodePos += ucNameLen;
-                if (dwDataSize > dwDecodePos)
-                {
-                    (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
-                }
+                (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
             }
         }
 
@@ -1795,14 +1819,21 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            CDepthGuard oGuard;
+            this->clear();
             check(dwDecodePos + 1, dwDataSize);
-            m_ucSubType = *(pData + dwDecodePos);
+            unsigned char ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
 
-            if (m_ucSubType < 17)
+            if (ucSubType < 17)
             {
+                m_ucSubType = ucSubType;
                 arDecodeFunc[m_ucSubType](dwDecodePos, pData, dwDataSize, *this);
             }
+            else
+            {
+                throw Error("decode data error: unknown type.");
+            }
         }
 
     public:
-- 
2.43.0


From d84af6993d8f92014f249262140c1f5f7b3b9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 13/78] fix: CAnyValuePackage: decode and decodeJSON read past
 the end of the package by the size of its header

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4897ff0..f4163c4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2077,7 +2077,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2100,7 +2100,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From c2b3519f6b043fae0a96ac40a3619e136bd570d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 14/78] fix: CAnyValue: 20 character integers lost their last
 digit in JSON and XML, and NUL was not escaped in JSON

---
 include/CAnyValue.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f4163c4..2c93ed2 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -828,14 +828,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -982,7 +982,7 @@ namespace lce
 
         static inline bool isControlCharacter(char ch)
         {
-            return ch > 0 && ch <= 0x1F;
+            return ch >= 0 && ch <= 0x1F;
         }
 
     public:
@@ -1007,14 +1007,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 64d39c404d543579704d66539db5c632fa1cd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 15/78] fix: CAnyValue accessors: asInt64/asUInt64 truncated to
 int, negative index and pop of an empty array were not checked

---
 include/CAnyValue.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 2c93ed2..f70e380 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
@@ -423,7 +423,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -435,7 +435,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -555,7 +555,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_back();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_back();
             }
         }
         void push_front(const CAnyValue &oValue)
@@ -573,7 +574,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_front();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_front();
             }
         }
 
-- 
2.43.0


From 6d74109efefff415ce35533b889c104f5a6d9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 16/78] fix: AnyHeader: uid lost its upper half and client ip
 was always zero on the wire

---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 08ea0b44ed2b38dc6e0437ef9f4afa51fede1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 17/78] fix: CAnyValue::decodeJSON: a top-level string decoded
 as empty, and the previous content leaked or stayed

---
 include/CAnyValue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index f70e380..e57c6b2 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -688,6 +688,7 @@ namespace lce
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
             int dwPos = 0;
+            this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
             if (szBuf[dwPos] == '{')
@@ -708,7 +709,7 @@ namespace lce
                 dwPos++;
 
                 this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                this->m_value.buf->assign(sValue);
             }
             else if (szBuf[dwPos] == 't')
             {
-- 
2.43.0


From 67a37ed491741ae89fb2b312a0ab565987d1495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 18/78] fix: CAnyValue JSON reader: read past the end of text
 that is not NUL terminated

---
 include/CAnyValue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e57c6b2..cab1d23 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -685,8 +685,10 @@ namespace lce
             this->clear();
         }
 
-        void decodeJSON(const char *szBuf, const size_t iSize)
+        void decodeJSON(const char *szText, const size_t iSize)
         {
+            const string sText(szText, iSize); // the reader looks one character ahead and relies on a terminator
+            const char *szBuf = sText.c_str();
             int dwPos = 0;
             this->clear();
             skipSpaces(dwPos, szBuf, iSize);
-- 
2.43.0


From 6b42bc14216a825060221d87cacc1d3eadcca284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 19/78] fix: CAnyValue JSON reader: unclosed arrays and objects
 were accepted, nesting was unbounded

---
 include/CAnyValue.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index cab1d23..04c762f 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1418,6 +1418,7 @@ namespace lce
 
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CDepthGuard oGuard;
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1426,7 +1427,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == '{')
                 {
@@ -1519,7 +1520,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == ',')
                 {
@@ -1533,10 +1534,13 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+
+            throw runtime_error("expect ']' at end of data");
         }
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CDepthGuard oGuard;
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1545,7 +1549,7 @@ namespace lce
                 if (szBuf[dwPos] == '}')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 if (szBuf[dwPos] == '"')
                 {
@@ -1665,7 +1669,7 @@ namespace lce
                     if (szBuf[dwPos] == '}')
                     {
                         dwPos++;
-                        break;
+                        return;
                     }
                     else if (szBuf[dwPos] == ',')
                     {
@@ -1687,6 +1691,8 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+
+            throw runtime_error("expect '}' at end of data");
         }
 
     private:
-- 
2.43.0


From 11300999541b57107ea10586dbbeb2c5ff9c8064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 20/78] fix: CAnyValue JSON reader: the exponent of a number
 without a decimal point was ignored

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 04c762f..daa962e 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -761,7 +761,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
+                if (sValue.find_first_of(".eE") != string::npos)
                 {
                     double flValue = atof(sValue.c_str());
                     this->m_ucType = DType::Float;
@@ -1497,7 +1497,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
+                    if (sValue.find_first_of(".eE") != string::npos)
                     {
                         double flValue = atof(sValue.c_str());
                         oValue.push_back(flValue);
@@ -1643,7 +1643,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
+                        if (sValue.find_first_of(".eE") != string::npos)
                         {
                             double flValue = atof(sValue.c_str());
                             oValue[sKey] = flValue;
-- 
2.43.0


From ff849ac6f0b0484c2c132ce6367d0ad1b590dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 21/78] fix: CAnyValue JSON reader: surrogate pairs were
 decoded as two invalid characters

---
 include/CAnyValue.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index daa962e..14305b4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1371,6 +1371,18 @@ namespace lce
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
+                    if (unicode >= 0xD800 && unicode <= 0xDBFF && szBuf[dwPos + 1] == '\\' && szBuf[dwPos + 2] == 'u')
+                    {
+                        // surrogate pair
+                        int dwLowPos = dwPos + 2;
+                        uint32_t low = 0;
+                        readUnicode(dwLowPos, szBuf, iSize, low);
+                        if (low >= 0xDC00 && low <= 0xDFFF)
+                        {
+                            unicode = 0x10000 + ((unicode - 0xD800) << 10) + (low - 0xDC00);
+                            dwPos = dwLowPos;
+                        }
+                    }
                     sValue.append(unicodeToUTF8(unicode));
                 }
                 else if (szBuf[dwPos] == '"')
-- 
2.43.0


From 4a5c44f9240560eed0e9a78f533095000da8d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 22/78] fix: HTTP framing examines only the received bytes and
 rejects bad lengths

---
 include/CHttpPackageFilter.h | 131 ++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 64 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..26135b2 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,10 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <string.h>
+#include <strings.h>
+#include "CPackageFilter.h"
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -14,80 +18,79 @@ namespace lce
 		// return value: -2 invalid pkt, -1 pkt haven't received whole pkt, 0 normal
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
-			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
-			if (NULL != pFirstLine)
+			const char *pDataEnd = pszData + iDataSize;
+			const char *pEnd = findStr(pszData, pDataEnd, "\r\n\r\n", 4);
+			if (pEnd == pDataEnd)
+				return -1;
+
+			pEnd += 4;
+			const int iHeadLen = (int)(pEnd - pszData);
+			int iContentLen = 0;
+
+			// header lines, between the first line and the blank line
+			const char *pLine = findStr(pszData, pEnd, "\r\n", 2) + 2;
+			while (pLine < pEnd - 2)
 			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
-				if (NULL != pEnd)
+				const char *pLineEnd = findStr(pLine, pEnd, "\r\n", 2);
+				static const int NAME_LEN = sizeof("Content-Length:") - 1;
+				if (pLineEnd - pLine >= NAME_LEN && ::strncasecmp(pLine, "Content-Length:", NAME_LEN) == 0)
 				{
+					if (!parseLen(pLine + NAME_LEN, pLineEnd, MAX_DATA_SIZE - iHeadLen, iContentLen))
+						return -2;
+					break;
+				}
+				pLine = pLineEnd + 2;
+			}
 
-					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
-					if (pHTTP == pszData)
-					{
-						bRecvData = true;
-					}
+			if (iContentLen > iDataSize - iHeadLen)
+				return -1;
 
-					int iHeadLen = (int)(pEnd - pszData);
-					int iHTMLLen = iHeadLen;
+			iRealPkgLen = iPkgLen = iHeadLen + iContentLen;
+			return 0;
+		}
 
-					if (bRecvData)
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
+		const char *getRealPkgData(const char *pszData, const int iDataSize)
+		{
+			return pszData;
+		}
 
-							if (iHTMLLen <= iDataSize && iHTMLLen > iHeadLen)
-							{
-								iRealPkgLen = iPkgLen = iHTMLLen;
-								iRe = 0;
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-					else
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-				}
+	private:
+		enum
+		{
+			MAX_DATA_SIZE = 0x7fffffff,
+		};
+
+		// first occurrence inside [pBegin,pEnd), pEnd if there is none
+		static const char *findStr(const char *pBegin, const char *pEnd, const char *pszFind, const int iFindLen)
+		{
+			for (; pEnd - pBegin >= iFindLen; ++pBegin)
+			{
+				if (::memcmp(pBegin, pszFind, iFindLen) == 0)
+					return pBegin;
 			}
-			return iRe;
+			return pEnd;
 		}
 
-		const char *getRealPkgData(const char *pszData, const int iDataSize)
+		static bool parseLen(const char *pBegin, const char *pEnd, const int iMax, int &iLen)
 		{
-			return pszData;
+			while (pBegin < pEnd && (*pBegin == ' ' || *pBegin == '\t'))
+				++pBegin;
+			while (pBegin < pEnd && (pEnd[-1] == ' ' || pEnd[-1] == '\t'))
+				--pEnd;
+			if (pBegin == pEnd)
+				return false;
+
+			int iVal = 0;
+			for (; pBegin < pEnd; ++pBegin)
+			{
+				if (*pBegin < '0' || *pBegin > '9')
+					return false;
+				if (iVal >= iMax / 10)
+					return false;
+				iVal = iVal * 10 + (*pBegin - '0');
+			}
+			iLen = iVal;
+			return true;
 		}
 	};
 
-- 
2.43.0


From 82e605b859e33d65debf045f33e7194b3ae88481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 23/78] fix: HTTP request parser handles hostile input,
 multipart data and header spelling

---
 include/CHttpReader.h |   4 ++
 src/CHttpReader.cpp   | 137 +++++++++++++++++++++++-------------------
 2 files changed, 80 insertions(+), 61 deletions(-)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 0e846db..964e7fe 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -128,6 +128,9 @@ namespace lce
 			m_sHttpContent.clear();
 			m_sFile.clear();
 			m_sFileName.clear();
+			m_mapFiles.clear();
+			m_nCommand = GET;
+			m_szErrMsg[0] = 0;
 		}
 
 	private:
@@ -137,6 +140,7 @@ namespace lce
 		void parsePostFormData(const string &sBoundary, const string::size_type headEndPos);
 
 		string getStrBetween(const string &sOrig, const string::size_type iPos, const string &sHead, const string &sTail, string::size_type &iFoundPos);
+		string getParam(const string &sOrig, const string &sHead, string::size_type &iFoundPos);
 
 		CHttpReader(const CHttpReader &rhs);
 		CHttpReader &operator=(const CHttpReader &rhs);
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..8031eae 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -11,6 +11,7 @@ namespace lce
 	{
 		memset(m_szNULL, 0, sizeof(m_szNULL));
 		memset(m_szErrMsg, 0, sizeof(m_szErrMsg));
+		m_nCommand = GET;
 	}
 
 	CHttpReader::~CHttpReader(void)
@@ -29,6 +30,11 @@ namespace lce
 		string::size_type pos2 = 0;
 
 		string::size_type headEndPos = m_sHttpContent.find("\r\n\r\n");
+		if (headEndPos == string::npos)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "parse http head error: can't find the blank line.");
+			return false;
+		}
 
 		// http command
 		pos2 = m_sHttpContent.find(' ', pos1);
@@ -129,35 +135,47 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
-			sName = sLine.substr(0, colonPos);
+			colonPos = sLine.find(':');
+			if (colonPos == string::npos)
+				continue;
+			sName = toLower(sLine.substr(0, colonPos).c_str());
 			if (sName.empty())
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "name error: name is empty<pos1=%d, pos2=%d>.", (uint32_t)pos1, (uint32_t)pos2);
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			sValue = sLine.substr(colonPos + 1);
+			sValue.erase(0, sValue.find_first_not_of(" \t"));
+			sValue.erase(sValue.find_last_not_of(" \t") + 1);
 
-			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-			{
-				sBoundary = sValue.substr(BOUNDARY_STR.length());
-			}
-			else
+			static const string FORM_DATA_STR("multipart/form-data");
+			static const string BOUNDARY_STR("boundary=");
+			if (sBoundary.empty() && sName == "content-type" && sValue.compare(0, FORM_DATA_STR.length(), FORM_DATA_STR) == 0)
 			{
-				m_mapHeadInfo[toLower(sName.c_str())] = sValue;
+				string::size_type tmpPos = sValue.find(BOUNDARY_STR);
+				if (tmpPos != string::npos)
+				{
+					sBoundary = sValue.substr(tmpPos + BOUNDARY_STR.length());
+					sBoundary.erase(std::min(sBoundary.find_first_of("; \t"), sBoundary.size()));
+					if (sBoundary.size() >= 2 && sBoundary[0] == '"' && sBoundary[sBoundary.size() - 1] == '"')
+						sBoundary = sBoundary.substr(1, sBoundary.size() - 2);
+				}
 			}
+			m_mapHeadInfo[sName] = sValue;
 		}
 
 		this->parseCookies();
-		this->parseValues();
 
 		if (m_nCommand == POST && !sBoundary.empty())
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
 		}
+		else
+		{
+			this->parseValues();
+		}
 
 		return bOk;
 	}
@@ -173,6 +191,9 @@ namespace lce
 		m_mapHeadInfo.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
+		m_mapFiles.clear();
+		m_nCommand = GET;
+		m_szErrMsg[0] = 0;
 	}
 
 	string &CHttpReader::getCookie(const string &sName, string &sValue, const string &sDefVal) const
@@ -358,7 +379,7 @@ namespace lce
 			equalPos = sTmp.find('=');
 			if (equalPos == string::npos)
 				continue;
-			m_mapValueList[sTmp.substr(0, equalPos)] = FormUrlDecode(sTmp.substr(1 + equalPos));
+			m_mapValueList[FormUrlDecode(sTmp.substr(0, equalPos))] = FormUrlDecode(sTmp.substr(1 + equalPos));
 		}
 	}
 
@@ -398,72 +419,66 @@ namespace lce
 		return sOrig.substr(idx1 + sHead.size(), idx2 - idx1 - sHead.size());
 	}
 
+	string CHttpReader::getParam(const string &sOrig, const string &sHead, string::size_type &iFoundPos)
+	{
+		string::size_type pos = sOrig.find(sHead);
+		while (pos != string::npos && pos > 0 && sOrig[pos - 1] != ' ' && sOrig[pos - 1] != ';')
+			pos = sOrig.find(sHead, pos + 1);
+
+		iFoundPos = string::npos;
+		return pos == string::npos ? "" : getStrBetween(sOrig, pos, sHead, "\"", iFoundPos);
+	}
+
 	void CHttpReader::parsePostFormData(const string &sBoundary, const string::size_type headEndPos)
 	{
-		string sValue;
-		string sName;
+		// part := boundary CRLF headers CRLF CRLF data, closed by CRLF boundary
+		const string sDelimiter = "\r\n" + sBoundary;
 		string::size_type pos1 = headEndPos + 4;
+		if (m_sHttpContent.compare(pos1, sBoundary.size(), sBoundary) == 0)
+		{
+			pos1 += sBoundary.size();
+		}
+		else
+		{
+			pos1 = m_sHttpContent.find(sDelimiter, pos1);
+			if (pos1 == string::npos)
+				return;
+			pos1 += sDelimiter.size();
+		}
 
-		while (string::npos != pos1 && pos1 < m_sHttpContent.size())
+		while (m_sHttpContent.compare(pos1, 2, "\r\n") == 0)
 		{
-			string::size_type pos = 0;
-			string sNV = getStrBetween(m_sHttpContent, pos1, sBoundary, sBoundary, pos);
+			string::size_type bodyPos = m_sHttpContent.find("\r\n\r\n", pos1);
+			if (bodyPos == string::npos)
+				break;
 
-			if (pos == string::npos || sNV.empty())
-			{
+			string::size_type pos2 = m_sHttpContent.find(sDelimiter, bodyPos + 4);
+			if (pos2 == string::npos)
 				break;
-			}
 
-			pos1 = pos + sNV.size();
+			const string sHead = m_sHttpContent.substr(pos1, bodyPos + 2 - pos1);
+			const string sValue = m_sHttpContent.substr(bodyPos + 4, pos2 - bodyPos - 4);
+			pos1 = pos2 + sDelimiter.size();
 
-			static const string FORM_DATA("Content-Disposition: form-data; ");
-			if (sNV.substr(2, FORM_DATA.size()) != FORM_DATA)
-			{
+			string::size_type pos = 0;
+			const string sDisposition = getStrBetween(sHead, 0, "\r\nContent-Disposition: form-data;", "\r\n", pos);
+			if (pos == string::npos)
 				break;
-			}
 
-			sName = getStrBetween(sNV, 2, "name=\"", "\"", pos);
+			const string sName = getParam(sDisposition, "name=\"", pos);
 			if (pos == string::npos || sName.empty())
-			{
 				break;
-			}
 
-			pos = sNV.find("\r\n\r\n", pos + 1);
-			if (pos == string::npos)
-			{
-				break;
-			}
-			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
-			{
-				sValue.erase(sValue.size() - 2);
-			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
-			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
-			if (pos == string::npos || m_sFileName.empty())
-			{
-				continue;
-			}
+			m_mapValueList[sName] = sValue;
 
-			string sFileType = getStrBetween(sNV, pos, "Content-Type: ", "\r\n", pos);
-			if (pos == string::npos || sFileType.empty())
-			{
+			m_sFileName = getParam(sDisposition, "filename=\"", pos);
+			if (pos == string::npos || m_sFileName.empty())
 				continue;
-			}
-			SFile stFile;
-			m_mapFiles[sName] = stFile;
-
-			MAP_FILE::iterator it = m_mapFiles.find(sName);
-
-			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
-
-			if (it->second.sData.size() > 2)
-			{
-				it->second.sData.erase(it->second.sData.size() - 2);
-			}
 
-			it->second.sContentType = sFileType;
-			it->second.sName = m_sFileName;
+			SFile &stFile = m_mapFiles[sName];
+			stFile.sContentType = getStrBetween(sHead, 0, "\r\nContent-Type: ", "\r\n", pos);
+			stFile.sData = sValue;
+			stFile.sName = m_sFileName;
 		}
 	}
 
-- 
2.43.0


From f24e6b5e10b26c11d1db3d5e7671275788efab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 24/78] fix: HTTP responses carry long headers whole, always
 state the length, and keep nothing of the previous response

---
 include/CHttpWriter.h |  3 +--
 src/CHttpWriter.cpp   | 30 ++++++++++++------------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..647e556 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,7 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
-			m_dwSetBodyLen = 0;
-			m_dwLastModified = 0;
+			begin();
 		}
 		~CHttpWriter(void)
 		{
diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..86c5222 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,35 +27,29 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
-		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Date: " + GetGMTDate(time(NULL)) + "\r\n";
 
 		if (m_dwLastModified > 0)
 		{
-			snprintf(szTmp, sizeof(szTmp), "Last-Modified: %s\r\n", GetGMTDate(m_dwLastModified).c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Last-Modified: " + GetGMTDate(m_dwLastModified) + "\r\n";
 		}
 
 		if (m_dwExpiresTime > 0)
 		{
-			snprintf(szTmp, sizeof(szTmp), "Expires: %s\r\n", GetGMTDate(m_dwExpiresTime).c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Expires: " + GetGMTDate(m_dwExpiresTime) + "\r\n";
 		}
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -66,17 +60,17 @@ namespace lce
 		}
 		else
 		{
-			if (!m_sBodyContent.empty())
+			// without a length the end of an empty body could not be told on a kept connection
+			if (!m_sBodyContent.empty() || (m_iStatusCode >= 200 && m_iStatusCode != 204 && m_iStatusCode != 304))
 			{
-				snprintf(szTmp, sizeof(szTmp), "Content-Length: %d\r\n", (uint32_t)m_sBodyContent.size());
+				snprintf(szTmp, sizeof(szTmp), "Content-Length: %lu\r\n", (unsigned long)m_sBodyContent.size());
 				m_sSendData += szTmp;
 			}
 		}
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,14 +92,14 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From a6819962a95bb1d087cbd65056d409b035fe2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 25/78] fix: configuration lines that are no assignments create
 no entries

---
 src/CConfig.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..d98e0af 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -7,6 +7,7 @@ namespace lce
 
 	CConfig::CConfig(void)
 	{
+		m_szErrMsg[0] = 0;
 	}
 
 	CConfig::~CConfig(void)
@@ -37,7 +38,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
@@ -55,19 +56,12 @@ namespace lce
 				{
 					sApp = sLine.substr(i + 1, j - i - 1);
 					lce::TrimStr(sApp);
-					if (sApp.empty())
-					{
-						break;
-					}
-				}
-				else
-				{
-					break;
 				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (j != std::string::npos)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From 9307b9d7d075456d6fb7f05e6a10d1d4dc56309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 26/78] fix: blocking queue keeps its lock across waits, peeks
 the right element and honours timeouts

---
 include/CBlockQueue.h | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..b7628ac 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -38,6 +38,7 @@ namespace lce
             m_dwFront = -1;
             m_dwBack = -1;
             pthread_mutex_unlock(m_mutex);
+            pthread_cond_broadcast(m_cond);
         }
 
         ~CBlockQueue()
@@ -88,7 +89,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
@@ -150,18 +151,9 @@ namespace lce
         bool pop(T &item)
         {
             pthread_mutex_lock(m_mutex);
-            while (true)
+            while (m_dwSize <= 0)
             {
-                if (m_dwSize <= 0)
-                {
-                    pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
-                    continue;
-                }
-                else
-                {
-                    break;
-                }
+                pthread_cond_wait(m_cond, m_mutex);
             }
 
             m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
@@ -178,14 +170,23 @@ namespace lce
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            t.tv_sec = now.tv_sec + timeout / 1000;
+            t.tv_nsec = now.tv_usec * 1000L + (timeout % 1000) * 1000000L;
+            if (t.tv_nsec >= 1000000000L)
+            {
+                t.tv_sec++;
+                t.tv_nsec -= 1000000000L;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_sec--;
+                t.tv_nsec += 1000000000L;
+            }
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 26fb00a1b91a394d6e2024fdf481a271af5e4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 27/78] fix: Condition waits on the clock its deadline is
 computed from, with a normalised deadline

---
 include/CLock.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..c532dc9 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -2,6 +2,7 @@
 #define __NCE_CLOCK_H
 
 #include <pthread.h>
+#include <time.h>
 
 namespace lce
 {
@@ -110,7 +111,14 @@ namespace lce
 		Condition &operator=(const Condition &);
 
 	public:
-		Condition() { ::pthread_cond_init(&m_sect, NULL); }
+		Condition()
+		{
+			pthread_condattr_t attr;
+			::pthread_condattr_init(&attr);
+			::pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+			::pthread_cond_init(&m_sect, &attr);
+			::pthread_condattr_destroy(&attr);
+		}
 		~Condition() { ::pthread_cond_destroy(&m_sect); }
 		bool signal() { return 0 == ::pthread_cond_signal(&m_sect); }
 		bool broadcast() { return 0 == ::pthread_cond_broadcast(&m_sect); }
@@ -120,7 +128,17 @@ namespace lce
 			struct timespec tv;
 			clock_gettime(CLOCK_MONOTONIC, &tv);
 			tv.tv_sec += iWaitTime / 1000;
-			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			tv.tv_nsec += (iWaitTime % 1000) * 1000000L;
+			if (tv.tv_nsec >= 1000000000L)
+			{
+				tv.tv_sec++;
+				tv.tv_nsec -= 1000000000L;
+			}
+			else if (tv.tv_nsec < 0)
+			{
+				tv.tv_sec--;
+				tv.tv_nsec += 1000000000L;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From 6a4961a8afba35f9e9bb7c61efffde4417e9cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 28/78] fix: thread stop flag is accessed atomically and a
 joined thread is not touched again

---
 include/CThread.h |  2 +-
 src/CThread.cpp   | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index 1c7d4f5..f05d518 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -30,7 +30,7 @@ namespace lce
             }
             return m_iPid;
         }
-        bool isStoped() { return (m_iStop == 1); }
+        bool isStoped() { return (__atomic_load_n(&m_iStop, __ATOMIC_ACQUIRE) == 1); }
         char *getErrMsg() { return m_szErrMsg; }
 
         virtual int run() = 0;
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..9953a98 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -25,12 +25,13 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
+        __atomic_store_n(&m_iStop, 0, __ATOMIC_RELEASE);
+
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
-        m_iStop = 0;
 
         return 0;
     }
@@ -49,7 +50,12 @@ namespace lce
     {
         if (m_iId > 0)
         {
-            return pthread_join(m_iId, NULL);
+            int iRet = pthread_join(m_iId, NULL);
+            if (iRet == 0)
+            {
+                m_iId = 0;
+            }
+            return iRet;
         }
 
         return 0;
@@ -57,10 +63,9 @@ namespace lce
 
     int CThread::stop()
     {
-        if (m_iStop)
+        if (__atomic_exchange_n(&m_iStop, 1, __ATOMIC_ACQ_REL))
             return 0;
 
-        m_iStop = 1;
         if (m_iId > 0)
         {
             return pthread_cancel(m_iId);
-- 
2.43.0


From 68eb52578918594315260556d7bcbf54d539b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 29/78] fix: cancelling a sleeping pool worker releases the
 queue lock, and the queue keeps its bound

---
 include/CTask.h | 9 ++++++++-
 src/CTask.cpp   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..7298f0a 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -51,6 +51,7 @@ namespace lce
                     bool bHaveTask = false;
 
                     pthread_mutex_lock(&m_pTask->m_lock);
+                    pthread_cleanup_push(unlock, &m_pTask->m_lock); // 睡眠时被取消也要释放锁
 
                     if (m_pTask->m_queTaskQueue.empty())
                     {
@@ -63,7 +64,7 @@ namespace lce
                         bHaveTask = true;
                     }
 
-                    pthread_mutex_unlock(&m_pTask->m_lock);
+                    pthread_cleanup_pop(1);
 
                     if (bHaveTask)
                     {
@@ -73,6 +74,12 @@ namespace lce
                 return 0;
             }
 
+        private:
+            static void unlock(void *pLock)
+            {
+                pthread_mutex_unlock((pthread_mutex_t *)pLock);
+            }
+
         private:
             CTask *m_pTask;
             int m_iIndex;
diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..6b8e4b3 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -45,7 +45,7 @@ namespace lce
 
         pthread_mutex_lock(&m_lock);
 
-        if (m_queTaskQueue.size() > (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
+        if (m_queTaskQueue.size() >= (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,queue over size :%d", __FILE__, __LINE__, (int)m_queTaskQueue.size());
             pthread_mutex_unlock(&m_lock);
-- 
2.43.0


From 5536b1f5f3cecac4b08e3e83575bb59b7f4e414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 30/78] fix: asynchronous log neither loses nor reorders
 accepted lines

---
 include/CAsyncLog.h |  7 ++--
 src/CAsyncLog.cpp   | 87 +++++++++++++++++++++++++++------------------
 2 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..52078bf 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog(void);
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
@@ -34,6 +35,7 @@ namespace lce
 
 	private:
 		int run();
+		bool needFlush(bool bTimeout);
 
 		size_t getFileSize(const std::string &sFile)
 		{
@@ -52,7 +54,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -63,7 +65,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
@@ -92,6 +94,7 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		lce::CMutex m_flushMutex;
 	};
 
 };
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..84dde3a 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,8 +3,25 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_iCurWriteBufferFlag = 1;
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
+		// end the flushing thread, then write what both buffers still hold
+		stop();
+		join();
+		if (m_poWriteBuffer1 != NULL)
+		{
+			flush();
+			flush();
+		}
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -161,12 +178,15 @@ namespace lce
 
 	int CAsyncLog::run()
 	{
+		// stop() ends the loop; the thread is never cancelled while writing a file
+		pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
+
 		int iMillSecs = 0;
-		while (true)
+		while (!isStoped())
 		{
 			usleep(100000);
 
-			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
+			if (needFlush(iMillSecs >= m_iLogSecs * 1000))
 			{
 				flush();
 				iMillSecs = 0;
@@ -176,27 +196,28 @@ namespace lce
 		return 0;
 	}
 
+	bool CAsyncLog::needFlush(bool bTimeout)
+	{
+		CAutoLock oLock(m_mutex);
+		return (bTimeout && (m_poWriteBuffer1->size() > 0 || m_poWriteBuffer2->size() > 0)) || m_poWriteBuffer1->full() || m_poWriteBuffer2->full();
+	}
+
+	// m_iCurWriteBufferFlag names the buffer with the older lines, the next one to be written to the file
 	void CAsyncLog::flush()
 	{
-		if (m_iCurWriteBufferFlag == 1)
-		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer2;
-			m_mutex.unlock();
+		CAutoLock oFlushLock(m_flushMutex);
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
-			m_poWriteBuffer1->reset();
-			m_iCurWriteBufferFlag = 2;
-		}
-		else if (m_iCurWriteBufferFlag == 2)
-		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer1;
-			m_mutex.unlock();
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
-			m_poWriteBuffer2->reset();
-			m_iCurWriteBufferFlag = 1;
-		}
+		m_mutex.lock();
+		CLogBuffer *pFlushBuffer = m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer1 : m_poWriteBuffer2;
+		m_poCurWirteBuffer = m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+		m_mutex.unlock();
+
+		writeFile(pFlushBuffer->data(), pFlushBuffer->size(), false);
+
+		m_mutex.lock();
+		pFlushBuffer->reset();
+		m_iCurWriteBufferFlag = m_iCurWriteBufferFlag == 1 ? 2 : 1;
+		m_mutex.unlock();
 	}
 
 	bool CAsyncLog::writeBuffer(const std::string &str, const bool bEnd)
@@ -209,29 +230,25 @@ namespace lce
 			std::cout << str << std::endl;
 		}
 
-		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
+		std::string sLine = str;
+		if (bEnd)
+		{
+			sLine += "\n";
+		}
 
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
+		bool bFlag = m_poCurWirteBuffer->write(sLine.data(), sLine.size());
 
 		if (!bFlag)
 		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
-			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer2;
-			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
+			// go on in the other buffer unless it still holds older lines
+			CLogBuffer *pOldBuffer = m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer1 : m_poWriteBuffer2;
+			if (m_poCurWirteBuffer == pOldBuffer)
 			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer1;
+				m_poCurWirteBuffer = m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+				bFlag = m_poCurWirteBuffer->write(sLine.data(), sLine.size());
 			}
 		}
 
-		if (bEnd && bFlag)
-		{
-			pWriteBuffer->write("\n", 1);
-		}
-
 		if (!bFlag)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "buffer is full");
-- 
2.43.0


From 54b412a84ea603f7f6b0a0ca4e304a76ce0ec168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 31/78] fix: timers more than 2^31 ms ahead no longer make the
 event loop wait for ever

---
 include/CEvent.h | 1 +
 src/CEvent.cpp   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..dbf6516 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -7,6 +7,7 @@
 #include <pthread.h>
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <queue>
 #include <set>
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..8ffa864 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -311,7 +311,7 @@ namespace lce
                     else
                     {
                         if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
-                            ddwExpire = it->ddwMillSecs - ddwTimeNow;
+                            ddwExpire = std::min<uint64_t>(it->ddwMillSecs - ddwTimeNow, INT_MAX); // epoll_wait takes an int
                         break;
                     }
                 }
-- 
2.43.0


From d0a4c23d5aa33e1a58fe177c5cc22e4e6ac2a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 32/78] fix: an event registration the kernel refuses leaves no
 trace in the event table

---
 src/CEvent.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 8ffa864..120fb9d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -104,17 +104,24 @@ namespace lce
         stEvent.events = 0;
 
         int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
+        int iNewType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
-        m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
-
-        if (m_stFdEvents[iWatchFd].iEventType & EV_READ)
+        if (iNewType & EV_READ)
             stEvent.events |= EPOLLIN;
-        if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
+        if (iNewType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
         stEvent.data.u64 = 0; /* avoid valgrind warning */
         stEvent.data.fd = iWatchFd;
 
+        if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
+            return -1;
+        }
+
+        m_stFdEvents[iWatchFd].iEventType = iNewType;
+
         if (iEventType & EV_READ)
         {
             m_stFdEvents[iWatchFd].onRead = onEvent;
@@ -127,12 +134,6 @@ namespace lce
             m_stFdEvents[iWatchFd].pClientWData = pClientData;
         }
 
-        if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
-        {
-            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
-            return -1;
-        }
-
         return 0;
     }
 
-- 
2.43.0


From a3fcf8074e3b9dd2367007a945c329ed47d0b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 33/78] fix: events of a closed descriptor are not delivered to
 its successor, and a handler may replace itself

---
 include/CEvent.h |  1 +
 src/CEvent.cpp   | 33 ++++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index dbf6516..6c7b9f2 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -49,6 +49,7 @@ namespace lce
         typedef struct
         {
             int iEventType;
+            uint32_t dwSeq; // changes with every new registration of the fd
             HandlerEvent onRead;
             HandlerEvent onWrite;
             void *pClientRData;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 120fb9d..91ce103 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -58,6 +58,7 @@ namespace lce
         for (int i = 0; i < (int)dwMaxFdNum; i++)
         {
             m_stFdEvents[i].iEventType = EV_DONE;
+            m_stFdEvents[i].dwSeq = 0;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
         }
@@ -105,14 +106,14 @@ namespace lce
 
         int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
         int iNewType = m_stFdEvents[iWatchFd].iEventType | iEventType;
+        uint32_t dwSeq = m_stFdEvents[iWatchFd].dwSeq + (iOP == EPOLL_CTL_ADD ? 1 : 0);
 
         if (iNewType & EV_READ)
             stEvent.events |= EPOLLIN;
         if (iNewType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = (uint64_t)dwSeq << 32 | (uint32_t)iWatchFd;
 
         if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
         {
@@ -121,6 +122,7 @@ namespace lce
         }
 
         m_stFdEvents[iWatchFd].iEventType = iNewType;
+        m_stFdEvents[iWatchFd].dwSeq = dwSeq;
 
         if (iEventType & EV_READ)
         {
@@ -159,8 +161,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = (uint64_t)m_stFdEvents[iWatchFd].dwSeq << 32 | (uint32_t)iWatchFd;
 
         if (m_stFdEvents[iWatchFd].iEventType != EV_DONE)
         {
@@ -322,12 +323,16 @@ namespace lce
 
             for (int i = 0; i < iEventNum; i++)
             {
+                // a handler may remove a registration, or close the fd and register its number anew:
+                // events taken for the old registration are not delivered to the new one
+                int iFd = (int)(uint32_t)m_stEPollState.stEvents[i].data.u64;
+                uint32_t dwSeq = m_stEPollState.stEvents[i].data.u64 >> 32;
 
                 if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
                     (m_stEPollState.stEvents[i].events & EPOLLERR) ||
                     (m_stEPollState.stEvents[i].events & EPOLLHUP))
                 {
-                    if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
+                    if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
                         char szBuf[1];
 
@@ -360,17 +365,23 @@ namespace lce
                     }
                     else
                     {
-                        StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                        if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                        if ((stFdEvent.iEventType & EV_READ) == EV_READ && stFdEvent.dwSeq == dwSeq)
+                        {
+                            HandlerEvent onRead = stFdEvent.onRead; // may be replaced while it runs
+                            onRead(iFd, stFdEvent.pClientRData);
+                        }
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
                 {
 
-                    StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                    if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                    if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE && stFdEvent.dwSeq == dwSeq)
+                    {
+                        HandlerEvent onWrite = stFdEvent.onWrite;
+                        onWrite(iFd, stFdEvent.pClientWData);
+                    }
                 }
             }
         }
-- 
2.43.0


From a45f7f40b42c71ab21dc9222cfcec394161ba5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 34/78] fix: posting many messages no longer fills the wake-up
 pipe and deadlocks the event loop

---
 src/CEvent.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 91ce103..5b41af7 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -255,9 +255,13 @@ namespace lce
 
         ::pthread_mutex_lock(&m_lock);
 
-        m_queMsgEvents.push(stMsgEvent);
+        // the pipe holds one byte as long as messages are waiting, so writing to it never blocks
+        int iFlag = m_queMsgEvents.empty() ? write(m_iMsgFd[1], "1", 1) : 0;
 
-        int iFlag = write(m_iMsgFd[1], "1", 1);
+        if (iFlag >= 0)
+        {
+            m_queMsgEvents.push(stMsgEvent);
+        }
 
         ::pthread_mutex_unlock(&m_lock);
 
@@ -343,13 +347,16 @@ namespace lce
 
                             ::pthread_mutex_lock(&m_lock);
 
-                            int iFlag = read(m_iMsgFd[0], szBuf, 1);
-
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
                                 bHaveMsg = true;
+
+                                if (m_queMsgEvents.empty() && read(m_iMsgFd[0], szBuf, 1) < 0)
+                                {
+                                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::run read error", __FILE__, __LINE__);
+                                }
                             }
                             ::pthread_mutex_unlock(&m_lock);
 
-- 
2.43.0


From 825ebccb391c183eabf30efc1dab1ead989129d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 35/78] fix: the event loop's run flag is shared between
 threads

---
 include/CEvent.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 6c7b9f2..5c0ff9f 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -14,6 +14,7 @@
 #include <unordered_map>
 #include <memory>
 #include <functional>
+#include <atomic>
 #include <algorithm>
 #include <fcntl.h>
 #include <iostream>
@@ -111,7 +112,7 @@ namespace lce
         multiset<StTimeEvent, cmpTimer> m_setStTimeEvents;
         MAP_TIME_INDEX m_mapTimeEventIndexs;
         char m_szErrMsg[1024];
-        bool m_bRun;
+        std::atomic<bool> m_bRun; // stop() may come from any thread
         bool m_bInit;
         uint32_t m_dwMaxFdNum;
         pthread_mutex_t m_lock;
-- 
2.43.0


From dd72975eaa40a79848ee8dd265178a13610b9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:57 +0000
Subject: [PATCH 36/78] fix: sending on a connection the peer has closed
 reports an error instead of killing the process

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 658d59a..c72cde3 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,7 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From 850f6c814a3355a15cf38849fc64e977790f6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 37/78] fix: a connection handed to a network worker is
 announced with its own descriptor

---
 src/CNetWorker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..63f9ab2 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -290,7 +290,7 @@ namespace lce
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
@@ -301,7 +301,7 @@ namespace lce
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(pstClientInfo->iFd);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From ce18d3e743bf9a31c1f19ef0bd4b60011ec826ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 38/78] fix: a handler that closes its connection, even when
 the descriptor number is used again at once, is not followed by accesses to
 the old connection

---
 include/CCommMgr.h   |  4 +++-
 include/CNetWorker.h |  7 +++++++
 include/Define.h     |  1 +
 src/CCommMgr.cpp     | 27 ++++++++++++++++++++-------
 src/CNetWorker.cpp   | 26 +++++++++++++++++---------
 5 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..648a94b 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -95,8 +95,9 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        inline bool isCurrent(int iFd, uint64_t ddwConnSeq);
 
-        CCommMgr() {}
+        CCommMgr() : m_dwMaxClient(0), m_dwClientNum(0), m_ddwConnSeq(0) {}
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
@@ -109,6 +110,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnSeq;
     };
 };
 
diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..d5c66ab 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnSeq = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -106,6 +107,11 @@ namespace lce
 		{
 			return (m_vecClients[iFd] == NULL);
 		}
+		// true while the connection is open; false once it was closed, even if its descriptor number is in use again
+		inline bool isCurrent(int iFd, uint64_t ddwConnSeq)
+		{
+			return (m_vecClients[iFd] != NULL && m_vecClients[iFd]->ddwConnSeq == ddwConnSeq);
+		}
 		int close(int iFd);
 		int write(int iFd);
 
@@ -123,6 +129,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnSeq;
 	};
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..c68c2b9 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -98,6 +98,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnSeq; // distinguishes the connections a descriptor number is used for
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..ce624bc 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -306,6 +306,7 @@ namespace lce
         StClientInfo *pstClientInfo = &m_vecClients[iFd];
 
         StServerInfo *pstServerInfo = m_vecServers[pstClientInfo->iSrvId];
+        uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq;
 
         StSession stSession;
         stSession.ddwBeginTime = lce::GetTickCount();
@@ -362,7 +363,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
+                if (!isCurrent(iFd, ddwConnSeq))
                     break;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
@@ -381,7 +382,8 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            if (isCurrent(iFd, ddwConnSeq))
+                close(iFd);
         }
         else
         {
@@ -390,7 +392,8 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                if (isCurrent(iFd, ddwConnSeq))
+                    close(iFd);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +460,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq = ++m_ddwConnSeq;
 
             m_dwClientNum++;
 
@@ -469,7 +473,7 @@ namespace lce
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (!isCurrent(iClientSock, ddwConnSeq))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -494,6 +498,7 @@ namespace lce
 
         StClientInfo *pstClientInfo = &m_vecClients[iFd];
         StServerInfo *pstServerInfo = m_vecServers[pstClientInfo->iSrvId];
+        uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq;
 
         int error;
         socklen_t ilen = sizeof(int);
@@ -510,7 +515,7 @@ namespace lce
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (isCurrent(iFd, ddwConnSeq))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -523,7 +528,8 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            if (isCurrent(iFd, ddwConnSeq))
+                close(iFd);
         }
     }
 
@@ -814,6 +820,12 @@ namespace lce
         return (m_vecClients[iFd].iFd == 0);
     }
 
+    // true while the connection is open; false once it was closed, even if its descriptor number is in use again
+    inline bool CCommMgr::isCurrent(int iFd, uint64_t ddwConnSeq)
+    {
+        return (m_vecClients[iFd].iFd != 0 && m_vecClients[iFd].ddwConnSeq == ddwConnSeq);
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -847,6 +859,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            uint64_t ddwConnSeq = m_vecClients[iFd].ddwConnSeq = ++m_ddwConnSeq;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -865,7 +878,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (!isCurrent(iFd, ddwConnSeq))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 63f9ab2..89aa17f 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -154,15 +154,16 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
-				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
+				uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq = ++m_ddwConnSeq;
+				m_vecClients[stSession.iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (!isCurrent(stSession.iFd, ddwConnSeq))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
-				return pstClientInfo->iFd;
+				return stSession.iFd;
 			}
 			else
 			{
@@ -176,6 +177,7 @@ namespace lce
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 						return -1;
 					}
+					pstClientInfo->ddwConnSeq = ++m_ddwConnSeq;
 					m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 					return pstClientInfo->iFd;
 				}
@@ -211,6 +213,7 @@ namespace lce
 		m_oEvent.delFdEvent(iFd, CEvent::EV_WRITE);
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
+		uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq;
 
 		int error;
 		socklen_t ilen = sizeof(int);
@@ -226,7 +229,7 @@ namespace lce
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (isCurrent(iFd, ddwConnSeq))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -240,7 +243,8 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			if (isCurrent(iFd, ddwConnSeq))
+				close(iFd);
 		}
 	}
 
@@ -286,6 +290,7 @@ namespace lce
 
 			if (pstClientInfo != NULL)
 			{
+				uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq = ++m_ddwConnSeq;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 
 				StSession stSession;
@@ -296,7 +301,7 @@ namespace lce
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (!isCurrent(stSession.iFd, ddwConnSeq))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -313,6 +318,7 @@ namespace lce
 	{
 
 		StClientInfo *pstClientInfo = m_vecClients[iFd];
+		uint64_t ddwConnSeq = pstClientInfo->ddwConnSeq;
 
 		StSession stSession;
 		stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
@@ -363,7 +369,7 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
+				if (!isCurrent(iFd, ddwConnSeq))
 					break;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
@@ -377,14 +383,16 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			if (isCurrent(iFd, ddwConnSeq))
+				close(iFd);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				if (isCurrent(iFd, ddwConnSeq))
+					close(iFd);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
-- 
2.43.0


From 19294426ef833f264a9abd47ecd39dc6b6418a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 39/78] fix: connections beyond the client table or the
 configured limit are refused, and a failed registration gives its slot back

---
 src/CCommMgr.cpp   | 11 +++++++++--
 src/CNetWorker.cpp |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index ce624bc..8a48163 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -444,7 +444,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -478,9 +478,9 @@ namespace lce
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
             {
+                close(iClientSock);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
                 continue;
             }
         }
@@ -853,6 +853,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                lce::Close(iFd);
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 89aa17f..6468da2 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -137,6 +137,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
-- 
2.43.0


From b715620e61435dfa0cc0f85a4fc7085f0d98b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 40/78] fix: a connection established at once is watched for
 incoming data

---
 src/CCommMgr.cpp   | 8 ++++++++
 src/CNetWorker.cpp | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 8a48163..550467b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -519,6 +519,7 @@ namespace lce
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
+                    close(iFd);
                     if (pstServerInfo->pProcessor != NULL)
                         pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                 }
@@ -890,6 +891,13 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(iFd);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    return -1;
+                }
                 return iFd;
             }
             else
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 6468da2..562195f 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -171,6 +171,13 @@ namespace lce
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
+
+				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession.iFd);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					return -1;
+				}
 				return stSession.iFd;
 			}
 			else
-- 
2.43.0


From 6c38c87c219fe0ea3295d2a443e9a21be4c03f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 41/78] fix: removing a service ends its connections instead of
 leaving them without one

---
 src/CCommMgr.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 550467b..4e3468d 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -1009,6 +1009,20 @@ namespace lce
             lce::Close(pstServerInfo->iFd);
         }
 
+        // its connections end with it
+        for (size_t i = 0; i < m_vecClients.size(); ++i)
+        {
+            if (m_vecClients[i].iFd != 0 && m_vecClients[i].iSrvId == iSrvId)
+                close(m_vecClients[i].iFd);
+        }
+
+        // the buffer of a datagram service is kept under its descriptor
+        if (pstServerInfo->iType == SRV_UDP && m_vecClients[pstServerInfo->iFd].pSocketRecvBuf != NULL)
+        {
+            delete m_vecClients[pstServerInfo->iFd].pSocketRecvBuf;
+            m_vecClients[pstServerInfo->iFd].pSocketRecvBuf = NULL;
+        }
+
         delete pstServerInfo;
 
         m_vecServers[iSrvId] = NULL;
@@ -1027,7 +1041,10 @@ namespace lce
 
         for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
         {
-            lce::Close((*it)->iFd);
+            if (*it == NULL)
+                continue;
+            if ((*it)->iFd > 0)
+                lce::Close((*it)->iFd);
             delete (*it);
         }
     }
-- 
2.43.0


From 82e32a2c691252ba86d2cb7ad110ab3f0119b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 42/78] fix: a datagram service without a message filter
 reports an error instead of crashing

---
 src/CCommMgr.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 4e3468d..167321b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -267,6 +267,15 @@ namespace lce
             int iRealPkgLen = 0;
             int iPkgLen = 0;
 
+            if (pstServerInfo->pPackageFilter == NULL)
+            {
+                pstClientInfo->pSocketRecvBuf->reset();
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package filter is null", __FILE__, __LINE__);
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_PKG_FILTER);
+                return;
+            }
+
             while ((iWholePkgFlag = pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
             {
 
-- 
2.43.0


From 435c339c0b8b372635bfc2bc47c80c89cccde8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 43/78] fix: a worker does not delete the caller's message
 filter, and the manager's connection counter starts at zero

---
 include/CNetWorkerMgr.h | 5 +++++
 src/CNetWorker.cpp      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..24e2fec 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -25,6 +25,7 @@ namespace lce
 	class CNetWorkerMgr
 	{
 	public:
+		CNetWorkerMgr() : m_pErrHandler(NULL), m_dwMaxClient(0), m_dwClientNum(0) {}
 		~CNetWorkerMgr();
 
 	public:
@@ -210,6 +211,10 @@ namespace lce
 			return -1;
 		}
 
+		if (pstServerInfo->iPkgType != PKG_EXT && pstServerInfo->pPackageFilter != pPkgFilter)
+			delete pstServerInfo->pPackageFilter;
+
+		pstServerInfo->iPkgType = PKG_EXT; // the filter belongs to the caller
 		pstServerInfo->pPackageFilter = pPkgFilter;
 		return 0;
 	}
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 562195f..137be66 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -103,6 +103,10 @@ namespace lce
 			return -1;
 		}
 
+		if (it->second->iPkgType != PKG_EXT && it->second->pPackageFilter != pPkgFilter)
+			delete it->second->pPackageFilter;
+
+		it->second->iPkgType = PKG_EXT; // the filter belongs to the caller
 		it->second->pPackageFilter = pPkgFilter;
 
 		return 0;
-- 
2.43.0


From 15a676764ceacf795e8b6a50370bd526b908edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 44/78] fix: the circular queue's positions are shared between
 its producer and consumer threads

---
 include/CCircleQueue.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/CCircleQueue.h b/include/CCircleQueue.h
index 5d07a9c..d1ecbf5 100644
--- a/include/CCircleQueue.h
+++ b/include/CCircleQueue.h
@@ -1,6 +1,9 @@
 #ifndef __CIRCLE_QUEUE_H__
 #define __CIRCLE_QUEUE_H__
 
+#include <stdint.h>
+#include <atomic>
+
 namespace lce
 {
 
@@ -77,8 +80,9 @@ namespace lce
 		}
 
 	private:
-		volatile uint32_t m_dwFront;
-		volatile uint32_t m_dwRear;
+		// one thread may add while another removes
+		std::atomic<uint32_t> m_dwFront;
+		std::atomic<uint32_t> m_dwRear;
 		SNode *pData;
 		volatile uint32_t m_dwSize;
 	};
-- 
2.43.0


From 69fcbffb30993ab8db405f2d4a4d0eb8a8a507f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 45/78] fix: a TCP connector without a socket does not close
 descriptor -1

---
 src/CTcpConnector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..d136523 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -251,7 +251,10 @@ namespace lce
 
 	void CTcpConnector::close()
 	{
-		::close(m_iFd);
+		if (m_iFd != -1)
+		{
+			::close(m_iFd);
+		}
 		m_iFd = -1;
 		m_bConnect = false;
 	}
-- 
2.43.0


From 81de91d2ce32db9fb655db2dd80f52ebc5806303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 46/78] fix: a TCP connection that is established at once is
 usable

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index d136523..f8ad0ac 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From 0d8623fddafb58dc12cce7fd512db6f72576037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 47/78] fix: a TCP connector's write sends everything or fails,
 without SIGPIPE and not after a failed reconnect

---
 src/CTcpConnector.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index f8ad0ac..c4af557 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -121,9 +121,9 @@ namespace lce
 
 	int CTcpConnector::write(const char *pData, const int iSize, const time_t dwTimeout)
 	{
-		if (!m_bConnect)
+		if (!m_bConnect && !_imp_connect())
 		{
-			_imp_connect();
+			return -1;
 		}
 
 		struct timeval tv;
@@ -131,13 +131,17 @@ namespace lce
 		tv.tv_usec = (dwTimeout % 1000) * 1000;
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
-		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
-		if (iSendLen < 0)
+		int iSendLen = 0;
+		while (iSendLen < iSize)
 		{
-			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
-			close();
-			return -1;
+			int n = ::send(m_iFd, pData + iSendLen, iSize - iSendLen, MSG_NOSIGNAL);
+			if (n < 0)
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
+				close();
+				return -1;
+			}
+			iSendLen += n;
 		}
 
 		return iSendLen;
-- 
2.43.0


From 1bc9abb9b73fe655b3369fdf7740dd3931d3fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 48/78] fix: a TCP connector that was never connected has
 defined settings

---
 include/CTcpConnector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CTcpConnector.h b/include/CTcpConnector.h
index 64d8ffd..e5bb586 100644
--- a/include/CTcpConnector.h
+++ b/include/CTcpConnector.h
@@ -10,8 +10,9 @@ namespace lce
 	{
 	public:
 		CTcpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0), m_dwTimeout(3000)
 		{
+			m_szErrMsg[0] = 0;
 		}
 		~CTcpConnector()
 		{
-- 
2.43.0


From 23f5532e48f033998583ef2cd6d9a1e371548f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 49/78] fix: a TCP connector can connect with descriptors above
 FD_SETSIZE

---
 src/CTcpConnector.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index c4af557..d4e2305 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
 namespace lce
@@ -69,21 +70,16 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			// poll, not select: an fd_set has no room for descriptors from FD_SETSIZE on
+			struct pollfd pfd;
+			pfd.fd = m_iFd;
+			pfd.events = POLLIN | POLLOUT;
+			pfd.revents = 0;
+			ret = poll(&pfd, 1, m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From 4fe9aff2586156901ae5ae9c39816352b9dd3abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 50/78] fix: a UDP connector closes its own descriptor only,
 also when it is connected again

---
 src/CUdpConnector.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..a451170 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -53,6 +53,11 @@ namespace lce
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
+		if (m_iFd != INVALID_SOCKET)
+		{
+			this->close();
+		}
+
 		if ((m_iFd = socket(AF_INET, SOCK_DGRAM, 0)) == INVALID_SOCKET)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect: socket error(%d):%s.", errno, strerror(errno));
@@ -191,7 +196,10 @@ namespace lce
 
 	void CUdpConnector::close()
 	{
-		::close(m_iFd);
+		if (m_iFd != INVALID_SOCKET)
+		{
+			::close(m_iFd);
+		}
 		m_iFd = -1;
 		m_bConnect = false;
 	}
-- 
2.43.0


From 5085a2d92d03b398b9c829dec1a5cb3ed863646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 51/78] fix: a UDP connector works on a host without a private
 address

---
 src/CUdpConnector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index a451170..bd42f73 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -19,6 +19,10 @@ namespace lce
 		static char ip[20] = {0};
 		int i;
 		int s = socket(AF_INET, SOCK_DGRAM, 0);
+		if (s == INVALID_SOCKET)
+		{
+			return NULL;
+		}
 
 		for (i = 1;; i++)
 		{
@@ -72,7 +76,8 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			const char *pLocalIp = getLocalIp();
+			sockClentAddr.sin_addr.s_addr = pLocalIp != NULL ? inet_addr(pLocalIp) : htonl(INADDR_ANY);
 		}
 		else
 		{
-- 
2.43.0


From a5745c6d5ab3fa6c7c4e5c7bbea25291d14e2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 52/78] fix: a failed UDP send is reported as -1, not as 0
 bytes sent

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index bd42f73..c2c57af 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -115,7 +115,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
-- 
2.43.0


From 7d604cc7c8a7a827a6e85d96c4970c91b3b68e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 53/78] fix: a UDP connector's error text is defined before the
 first error

---
 include/CUdpConnector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CUdpConnector.h b/include/CUdpConnector.h
index 3147f1c..fb03ff6 100644
--- a/include/CUdpConnector.h
+++ b/include/CUdpConnector.h
@@ -12,8 +12,9 @@ namespace lce
 	{
 	public:
 		CUdpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0)
 		{
+			m_szErrMsg[0] = 0;
 		}
 		~CUdpConnector()
 		{
-- 
2.43.0


From 9b55d84d54224cc74ab0843a8eebb25f0c7601f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 54/78] fix: a worker pool without an error hook calls none

---
 include/CAnyWorkerPool.h  | 2 +-
 include/CHttpWorkerPool.h | 2 +-
 include/CRawWorkerPool.h  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..8b4b30b 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CAnyWorkerPool<T>::CAnyWorkerPool()
+    CAnyWorkerPool<T>::CAnyWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..d793efd 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CHttpWorkerPool<T>::CHttpWorkerPool()
+    CHttpWorkerPool<T>::CHttpWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..9f21acd 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -48,7 +48,7 @@ namespace lce
         }
     }
     template <class T>
-    CRawWorkerPool<T>::CRawWorkerPool()
+    CRawWorkerPool<T>::CRawWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
-- 
2.43.0


From cd76e42a8ebb6cf37b7aa3efa5747997480413d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 55/78] fix: a worker pool releases a request that cannot be
 queued and a response that cannot be posted

---
 include/CAnyWorkerPool.h  | 4 ++++
 include/CHttpWorkerPool.h | 4 ++++
 include/CRawWorkerPool.h  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 8b4b30b..fe6ec1a 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -96,6 +96,8 @@ namespace lce
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
@@ -127,6 +129,8 @@ namespace lce
             poResponse->getWriter().setEtx();
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
+                delete poResponse;
+                poResponse = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
             }
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index d793efd..c13e828 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -96,6 +96,8 @@ namespace lce
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
@@ -125,6 +127,8 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*poRequest, *poResponse);
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
+                delete poResponse;
+                poResponse = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
             }
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 9f21acd..96b5647 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -92,6 +92,8 @@ namespace lce
         pstRequest->getReader().assign(pszData, iSize);
         if (dispatch(0, pstRequest) < 0)
         {
+            delete pstRequest;
+            pstRequest = NULL;
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
         }
@@ -108,6 +110,8 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*pstRequest, *pstResponse);
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, pstResponse) < 0)
             {
+                delete pstResponse;
+                pstResponse = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
             }
-- 
2.43.0


From fc4b30120fea773402fc71e9d1284c5b4efa2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 56/78] fix: an answer to a session never goes to a later
 connection with the same descriptor

---
 include/Define.h | 1 +
 src/CCommMgr.cpp | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Define.h b/include/Define.h
index c68c2b9..02862a2 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnSeq; // which connection on iFd; 0: whatever is open there
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 167321b..7e586d9 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -322,6 +322,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnSeq = ddwConnSeq;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
@@ -478,6 +479,7 @@ namespace lce
 
             stSession.iFd = iClientSock;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
+            stSession.ddwConnSeq = ddwConnSeq;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
@@ -518,6 +520,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnSeq = pstClientInfo->ddwConnSeq;
 
         if (error == 0)
         {
@@ -546,7 +549,7 @@ namespace lce
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession.iFd) || (stSession.ddwConnSeq != 0 && !isCurrent(stSession.iFd, stSession.ddwConnSeq)))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -724,6 +727,7 @@ namespace lce
         StSession stSession;
         stSession.ddwBeginTime = lce::GetTickCount();
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnSeq = pstClientInfo->ddwConnSeq;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
 
@@ -788,6 +792,8 @@ namespace lce
     int CCommMgr::close(const StSession &stSession)
     {
         int iFd = stSession.iFd;
+        if (stSession.ddwConnSeq != 0 && !isCurrent(iFd, stSession.ddwConnSeq))
+            return 0;
         return close(iFd);
     }
 
@@ -891,6 +897,7 @@ namespace lce
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
+                stSession.ddwConnSeq = ddwConnSeq;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
-- 
2.43.0


From ea6a7aa0c47c55d235a8529478e6cfc3784b85c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 57/78] fix: HTTP dates can be formatted by several threads at
 once

---
 src/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index c72cde3..c34c3e0 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -200,7 +200,8 @@ namespace lce
     std::string GetGMTDate(const time_t &cur)
     {
         char buf[256];
-        struct tm *gt = gmtime(&cur);
+        struct tm stTm;
+        struct tm *gt = gmtime_r(&cur, &stTm);
         snprintf(buf, sizeof(buf), "%s, %02d %s %04d %02d:%02d:%02d GMT",
                  days[gt->tm_wday],
                  gt->tm_mday,
-- 
2.43.0


From 63316e9dafbf957e7fa725b88ef5e12c1a0b2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 58/78] fix: an any-value worker pool answers with a complete
 package (start mark and length)

---
 include/CAnyWorkerPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index fe6ec1a..68fe642 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -127,6 +127,8 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*poRequest, *poResponse);
             poResponse->getWriter().encode();
             poResponse->getWriter().setEtx();
+            poResponse->getWriter().head().setStx(0x2);
+            poResponse->getWriter().head().setLen(poResponse->getWriter().size());
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
                 delete poResponse;
-- 
2.43.0


From 96465feed76dd5376099ce1e09384bcd59dd8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 59/78] fix: a MySQL result assigned to itself stays valid

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca3f86a..5cc4b94 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -88,10 +88,10 @@ namespace lce
 
     void MySqlData::operator=(const MySqlData &right)
     {
+        right._data->RefAdd();
         if (_data)
             _data->RefSub();
         _data = right._data;
-        _data->RefAdd();
     }
 
     MySqlData::MySqlData(MySqlBasicData *data)
-- 
2.43.0


From 80a21c7be3533b643c7d2b9bbb7e5f055ad32c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 60/78] fix: the number of affected MySQL rows is not truncated
 to an int

---
 src/CMysql.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 5cc4b94..18a55ae 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -244,9 +244,9 @@ namespace lce
         MySqlBasicData *data = new MySqlBasicData();
         if (mysql_field_count(_Mysql) == 0)
         {
-            int inum = mysql_affected_rows(_Mysql);
+            my_ulonglong inum = mysql_affected_rows(_Mysql);
             string err(sql);
-            if (inum < 0)
+            if (inum == (my_ulonglong)-1)
             {
                 delete data;
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
-- 
2.43.0


From 896a889104dc9eaebb6e9958ac080b26598076c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 61/78] fix: text that MySQL cannot escape is reported, not
 taken for a text of 2^64-1 bytes

---
 src/CMysql.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 18a55ae..64905c5 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -387,7 +387,13 @@ namespace lce
 
         char *p = new char[length * 2 + 1];
         char *pp = p;
-        pp += mysql_real_escape_string(_Mysql, pp, s, length);
+        unsigned long escaped = mysql_real_escape_string(_Mysql, pp, s, length);
+        if (escaped == (unsigned long)-1)
+        {
+            delete[] p;
+            throw mysql_exception(string("CMySql::escape_string: ") + mysql_error(_Mysql));
+        }
+        pp += escaped;
         std::string s1(p, pp - p);
         delete[] p;
         return s1;
-- 
2.43.0


From c1fb8f9e5968ebce50e61273ef1fbe624894fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 62/78] fix: a MySQL connector connects again after a failed
 query, to the chosen database, and never uses a closed handle

---
 src/CMysql.cpp | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 64905c5..fa27730 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -165,6 +165,7 @@ namespace lce
         _pass = pass;
         _port = port;
         _charSet = charSet;
+        _dbname.clear();
 
         _Mysql = new MYSQL;
         Connect();
@@ -201,27 +202,14 @@ namespace lce
 
         Close();
         _charSet = cs;
-        Connect();
-
-        if (_dbname.empty())
-            return;
-
-        if (mysql_select_db(_Mysql, _dbname.c_str()))
-        {
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
-            {
-                Connect();
-            }
-
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
-        }
+        Select();
     }
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
     {
+        if (!_bIsConn)
+            Select();
+
         if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
         {
             string err(mysql_error(_Mysql) + string(":") + sql);
@@ -229,9 +217,7 @@ namespace lce
             Close();
             if (ret_errno == 2013 || ret_errno == 2006)
             {
-                Connect();
-                if (mysql_select_db(_Mysql, _dbname.c_str()))
-                    throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+                Select();
                 if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
                     throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
@@ -324,6 +310,9 @@ namespace lce
 
     void CMySql::Connect()
     {
+        if (_Mysql == NULL)
+            throw mysql_exception("CMySql::Connect: not initialised");
+
         mysql_init(_Mysql);
 
         if (_Mysql != NULL)
@@ -368,22 +357,26 @@ namespace lce
 
         if (mysql_select_db(_Mysql, _dbname.c_str()))
         {
+            string err(mysql_error(_Mysql));
             int ret_errno = mysql_errno(_Mysql);
             Close();
             if (ret_errno == 2013 || ret_errno == 2006)
             {
                 Connect();
+                if (mysql_select_db(_Mysql, _dbname.c_str()) == 0)
+                    return;
+                err = mysql_error(_Mysql);
+                Close();
             }
 
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+            throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + err);
         }
     }
 
     std::string CMySql::escape_string(const char *s, size_t length)
     {
         if (!_bIsConn)
-            Connect();
+            Select();
 
         char *p = new char[length * 2 + 1];
         char *pp = p;
-- 
2.43.0


From b401d9ae9f4eb0c91e8c84f1ac65466473f12149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 63/78] fix: an HTTP parameter or cookie read as unsigned long
 may use the whole range

---
 src/CHttpReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 8031eae..4d95dfc 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -213,7 +213,7 @@ namespace lce
 		MAP_COOKIE::const_iterator it = m_mapCookieList.find(sName);
 		if (it != m_mapCookieList.end())
 		{
-			dwValue = atoll(it->second.c_str());
+			dwValue = strtoul(it->second.c_str(), NULL, 10);
 		}
 		return dwValue;
 	}
@@ -287,7 +287,7 @@ namespace lce
 		MAP_VALUE::const_iterator it = m_mapValueList.find(sName);
 		if (it != m_mapValueList.end())
 		{
-			dwValue = atoll(it->second.c_str());
+			dwValue = strtoul(it->second.c_str(), NULL, 10);
 		}
 		return dwValue;
 	}
-- 
2.43.0


From c7aeb0061f53613962422ae7fabe9c07762d9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 64/78] fix: a configuration value read as unsigned long may
 use the whole range

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index d98e0af..1ff1367 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -169,7 +169,7 @@ namespace lce
 			if (subIt != it->second.end())
 			{
 
-				dwValue = static_cast<unsigned long>(atoll(subIt->second.c_str()));
+				dwValue = strtoul(subIt->second.c_str(), NULL, 10);
 			}
 		}
 		return dwValue;
-- 
2.43.0


From d0d301335eb322ca64422c773469b5136b1281b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 65/78] fix: concurrent first uses of a singleton race, and a
 throwing constructor leaves it locked

---
 include/CSingleton.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/CSingleton.h b/include/CSingleton.h
index 07df132..417aa0e 100644
--- a/include/CSingleton.h
+++ b/include/CSingleton.h
@@ -2,6 +2,7 @@
 #define _LCE_SINGLETON_H
 
 #include <pthread.h>
+#include <atomic>
 
 namespace lce
 {
@@ -11,16 +12,27 @@ namespace lce
 	public:
 		static T &getInstance()
 		{
-			if (m_pInstance == NULL)
+			T *pInstance = m_pInstance.load(std::memory_order_acquire);
+			if (pInstance == NULL)
 			{
 				pthread_mutex_lock(&m_mutex);
-				if (m_pInstance == NULL)
+				pInstance = m_pInstance.load(std::memory_order_relaxed);
+				if (pInstance == NULL)
 				{
-					m_pInstance = new T;
+					try
+					{
+						pInstance = new T;
+					}
+					catch (...)
+					{
+						pthread_mutex_unlock(&m_mutex);
+						throw;
+					}
+					m_pInstance.store(pInstance, std::memory_order_release);
 				}
 				pthread_mutex_unlock(&m_mutex);
 			}
-			return *m_pInstance;
+			return *pInstance;
 		}
 
 		~CSingleton() {}
@@ -31,12 +43,12 @@ namespace lce
 		CSingleton(const CSingleton &);
 
 	private:
-		static T *m_pInstance;
+		static std::atomic<T *> m_pInstance;
 		static pthread_mutex_t m_mutex;
 	};
 
 	template <typename T>
-	T *CSingleton<T>::m_pInstance = NULL;
+	std::atomic<T *> CSingleton<T>::m_pInstance(NULL);
 
 	template <typename T>
 	pthread_mutex_t CSingleton<T>::m_mutex = PTHREAD_MUTEX_INITIALIZER;
-- 
2.43.0


From 39539d31070b9ba649fa136eb14f0ee8fbe20487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 66/78] fix: concurrent first uses of the communication manager
 create two

---
 include/CCommMgr.h | 19 +++++++++++++++----
 src/CCommMgr.cpp   |  3 ++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 648a94b..0716a68 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -5,6 +5,8 @@
 #include <vector>
 #include <iostream>
 #include <memory>
+#include <atomic>
+#include <pthread.h>
 #include <functional>
 #include "Utils.h"
 #include "CSocketBuf.h"
@@ -84,11 +86,19 @@ namespace lce
 
         static CCommMgr &getInstance()
         {
-            if (NULL == m_pInstance)
+            CCommMgr *pInstance = m_pInstance.load(std::memory_order_acquire);
+            if (NULL == pInstance)
             {
-                m_pInstance = new CCommMgr;
+                pthread_mutex_lock(&m_stInstanceLock);
+                pInstance = m_pInstance.load(std::memory_order_relaxed);
+                if (NULL == pInstance)
+                {
+                    pInstance = new CCommMgr;
+                    m_pInstance.store(pInstance, std::memory_order_release);
+                }
+                pthread_mutex_unlock(&m_stInstanceLock);
             }
-            return *m_pInstance;
+            return *pInstance;
         }
 
     private:
@@ -107,7 +117,8 @@ namespace lce
         map<int, CProcessor *> m_mapSigProcs;
         CEvent m_oCEvent;
         char m_szErrMsg[1024];
-        static CCommMgr *m_pInstance;
+        static std::atomic<CCommMgr *> m_pInstance;
+        static pthread_mutex_t m_stInstanceLock;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
         uint64_t m_ddwConnSeq;
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 7e586d9..06e1c20 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -3,7 +3,8 @@
 namespace lce
 {
 
-    CCommMgr *CCommMgr::m_pInstance = NULL;
+    std::atomic<CCommMgr *> CCommMgr::m_pInstance(NULL);
+    pthread_mutex_t CCommMgr::m_stInstanceLock = PTHREAD_MUTEX_INITIALIZER;
 
     int CCommMgr::createSrv(int iType, const string &sIp, uint16_t wPort, uint32_t dwInitRecvBufLen, uint32_t dwMaxRecvBufLen, uint32_t dwInitSendBufLen, uint32_t dwMaxSendBufLen)
     {
-- 
2.43.0


From 7d43a0f057a055e6dc80cc1953635a1405cddb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 67/78] fix: an event loop that could not set up its message
 pipe was reported as initialised or leaked its descriptors

---
 include/CEvent.h |  1 +
 src/CEvent.cpp   | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 5c0ff9f..5d85c70 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -97,6 +97,7 @@ namespace lce
         const char *getErrorMsg() { return m_szErrMsg; }
 
     private:
+        void release();
         static inline uint64_t getMillSecsNow()
         {
             struct timeval stNow;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 5b41af7..d76714c 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -19,10 +19,16 @@ namespace lce
     CEvent::~CEvent()
     {
         ::pthread_mutex_destroy(&m_lock);
+        release();
+    }
+
+    void CEvent::release()
+    {
         if (m_iMsgFd[0] >= 0)
             ::close(m_iMsgFd[0]);
         if (m_iMsgFd[1] >= 0)
             ::close(m_iMsgFd[1]);
+        m_iMsgFd[0] = m_iMsgFd[1] = -1;
 
         if (m_stFdEvents != NULL)
         {
@@ -33,6 +39,7 @@ namespace lce
         if (m_stEPollState.iEPollFd >= 0)
         {
             ::close(m_stEPollState.iEPollFd);
+            m_stEPollState.iEPollFd = -1;
         }
     }
 
@@ -66,6 +73,7 @@ namespace lce
         if (pipe(m_iMsgFd) != 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init create pipe error", __FILE__, __LINE__);
+            release();
             return -1;
         }
 
@@ -75,6 +83,7 @@ namespace lce
         if (iOpts < 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+            release();
             return -1;
         }
         iOpts = iOpts | O_NONBLOCK;
@@ -82,10 +91,15 @@ namespace lce
         if (fcntl(m_iMsgFd[0], F_SETFL, iOpts) < 0)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+            release();
             return -1;
         }
 
-        addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL); // 自定义事件通知
+        if (addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL) != 0) // 自定义事件通知
+        {
+            release();
+            return -1;
+        }
 
         m_bInit = true;
         return 0;
-- 
2.43.0


From a9bd80384cf5e7c2e35651a6f85d44e4fe61736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 68/78] fix: writeTo on a service that is not a datagram
 service wrote to descriptor 0 or raised SIGPIPE

---
 src/CCommMgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 06e1c20..b8e3773 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -782,6 +782,12 @@ namespace lce
             return -1;
         }
 
+        if (pstServerInfo->iType != SRV_UDP)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,server iType error", __FILE__, __LINE__);
+            return -1;
+        }
+
         if (lce::SendTo(pstServerInfo->iFd, pszData, iSize, sIp, wPort) == -1)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
-- 
2.43.0


From d25b38da616471cdd66cc18662d59d0628ce7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 69/78] fix: a string containing "]]>" broke out of its XML
 section

---
 include/CAnyValue.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 14305b4..0a9849d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -854,8 +854,18 @@ namespace lce
             break;
             case DType::String:
             {
+                // a section ends at the first "]]>", which is therefore split over two sections
+                const std::string &sValue = *m_value.buf;
+                size_t dwBegin = 0;
+                size_t dwEnd = 0;
                 sBuf += "<![CDATA[";
-                sBuf += (*m_value.buf);
+                while ((dwEnd = sValue.find("]]>", dwBegin)) != std::string::npos)
+                {
+                    sBuf.append(sValue, dwBegin, dwEnd + 2 - dwBegin);
+                    sBuf += "]]><![CDATA[";
+                    dwBegin = dwEnd + 2;
+                }
+                sBuf.append(sValue, dwBegin, std::string::npos);
                 sBuf += "]]>";
             }
             break;
-- 
2.43.0


From 5dd78aeccd679cedcf966ed5b00109497132788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 70/78] fix: a thread object cancelled or detached threads that
 were not its own any more

---
 include/CThread.h |  5 +++++
 src/CThread.cpp   | 25 ++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index f05d518..cd6f6fa 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -47,10 +47,15 @@ namespace lce
     protected:
         char m_szErrMsg[1024];
 
+    private:
+        // gives up the thread: its id may be reused by others once it has ended
+        void release();
+
     private:
         pid_t m_iPid;
         pthread_t m_iId;
         int m_iStop;
+        bool m_bDetached;
     };
 };
 #endif
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 9953a98..29615d3 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -8,12 +8,13 @@ namespace lce
         m_iId = 0;
         m_iPid = 0;
         m_iStop = 0;
+        m_bDetached = false;
     }
 
     CThread::~CThread()
     {
-        detach();
         stop();
+        release();
     }
 
     int CThread::start()
@@ -27,8 +28,11 @@ namespace lce
 
         __atomic_store_n(&m_iStop, 0, __ATOMIC_RELEASE);
 
+        release();
+
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
+            m_iId = 0; // a failed call leaves an unusable id behind
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
@@ -38,16 +42,31 @@ namespace lce
 
     int CThread::detach()
     {
+        // nobody has to join any more, but the id is kept usable until it is released
         if (m_iId > 0)
         {
-            return pthread_detach(m_iId);
+            m_bDetached = true;
         }
-
         return 0;
     }
 
+    void CThread::release()
+    {
+        if (m_iId > 0)
+        {
+            pthread_detach(m_iId);
+            m_iId = 0;
+        }
+        m_bDetached = false;
+    }
+
     int CThread::join()
     {
+        if (m_bDetached)
+        {
+            return EINVAL;
+        }
+
         if (m_iId > 0)
         {
             int iRet = pthread_join(m_iId, NULL);
-- 
2.43.0


From d45234dd08913ab7342a56b8ef81fbf73471e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:05 +0000
Subject: [PATCH 71/78] fix: threads that could not be started were not
 reported

---
 include/CNetWorkerMgr.h |  6 +++++-
 src/CAsyncLog.cpp       |  4 +---
 src/CTask.cpp           | 10 ++++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 24e2fec..ddc004d 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -35,7 +35,11 @@ namespace lce
 		{
 			for (size_t i = 0; i < m_vecWorkers.size(); ++i)
 			{
-				m_vecWorkers[i]->start();
+				if (m_vecWorkers[i]->start() != 0)
+				{
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,start of a worker failed", __FILE__, __LINE__);
+					return -1;
+				}
 			}
 			return m_oEvent.run();
 		}
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 84dde3a..7523747 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -52,9 +52,7 @@ namespace lce
 		m_iLogSecs = iLogSecs;
 		m_iCurWriteBufferFlag = 1;
 
-		start();
-
-		return true;
+		return start() == 0;
 	}
 
 	bool CAsyncLog::shiftFiles()
diff --git a/src/CTask.cpp b/src/CTask.cpp
index 6b8e4b3..2473309 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -20,12 +20,18 @@ namespace lce
 
     int CTask::run()
     {
+        int iRet = 0;
         for (int i = 0; i < m_iThreadNum; i++)
         {
-            m_vecTaskThreads[i]->start();
+            if (m_vecTaskThreads[i]->start() != 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_vecTaskThreads[i]->getErrMsg());
+                iRet = -1;
+                continue;
+            }
             m_vecTaskThreads[i]->detach();
         }
-        return 0;
+        return iRet;
     }
 
     int CTask::stop()
-- 
2.43.0


From a9c07caf1b0fcf5170cf07397c07c06aa6de974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 72/78] fix: a failed write silenced the logs for ever and was
 reported as success

---
 src/CAsyncLog.cpp | 17 ++++++++++++++++-
 src/CFileLog.cpp  |  7 +++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 7523747..1fb7c21 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -85,6 +85,7 @@ namespace lce
 			{
 				if (remove(szLogFileName) < 0)
 				{
+					CAutoLock oLock(m_mutex);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "remove error: errno=%d.", errno);
 					return false;
 				}
@@ -102,6 +103,7 @@ namespace lce
 					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
+						CAutoLock oLock(m_mutex);
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "rename error:errno=%d.", errno);
 						return false;
 					}
@@ -127,6 +129,7 @@ namespace lce
 
 		if (m_ofsOutFile.fail())
 		{
+			CAutoLock oLock(m_mutex);
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "open file<%s> err!", m_sLogFilePath.c_str());
 			return false;
 		}
@@ -158,6 +161,7 @@ namespace lce
 
 		if (m_ofsOutFile.fail())
 		{
+			CAutoLock oLock(m_mutex);
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "open file<%s> err!", m_sLogFilePath.c_str());
 			return false;
 		}
@@ -171,6 +175,14 @@ namespace lce
 
 		m_ofsOutFile.flush();
 
+		if (m_ofsOutFile.fail())
+		{
+			// a part may have been written, so these lines are not written again; the next ones open the file again
+			CAutoLock oLock(m_mutex);
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close();
+		}
+
 		return true;
 	}
 
@@ -210,7 +222,10 @@ namespace lce
 		m_poCurWirteBuffer = m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
 		m_mutex.unlock();
 
-		writeFile(pFlushBuffer->data(), pFlushBuffer->size(), false);
+		if (!writeFile(pFlushBuffer->data(), pFlushBuffer->size(), false))
+		{
+			return; // nothing was written: the lines are kept for the next flush
+		}
 
 		m_mutex.lock();
 		pFlushBuffer->reset();
diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..23c893a 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -119,6 +119,13 @@ namespace lce
 			m_ofsOutFile << std::endl;
 		}
 
+		if (m_ofsOutFile.fail())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close(); // the next line opens the file again
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From a3c6150d7237db910de6e2610f0b28f3a3171152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 73/78] fix: members with names over 255 bytes could be stored
 but not found or erased

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 0a9849d..2bd44d0 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -449,7 +449,7 @@ namespace lce
             static CAnyValue m_null;
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -462,7 +462,7 @@ namespace lce
             // std::string sName(pszName);
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(pszName);
+                MapType::iterator it = m_value.map->find(std::string(pszName).substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -503,7 +503,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return true;
             }
@@ -583,7 +583,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                m_value.map->erase(sName);
+                m_value.map->erase(sName.substr(0, 255));
             }
         }
 
-- 
2.43.0


From 59b3a85373ced79019ba913cb243613d152de36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:22 +0000
Subject: [PATCH 74/78] fix: setting up a shared bitmap or array again used the
 old segment with the new size, and half-made segments were taken as valid

---
 include/CBitMap.h   | 112 +++++++++++++++++++-------------------------
 include/CShm.h      |  12 +++++
 include/CShmArray.h |  11 ++---
 3 files changed, 65 insertions(+), 70 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 845af33..1a7bb25 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -21,26 +21,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = (dwBitmapSize + 7) / 8 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -60,6 +57,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -123,26 +121,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 2 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -162,6 +157,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -223,26 +219,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 3 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -262,6 +255,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -327,26 +321,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 4 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -366,6 +357,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -427,26 +419,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 5 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -466,6 +455,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -531,26 +521,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 6 + sizeof(SHead);
 
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -570,6 +557,7 @@ namespace lce
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
@@ -634,26 +622,23 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = dwBitmapSize + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
-			if (m_oShm.isCreate())
+			if (m_oShm.isCreate() || (!bReadOnly && ((SHead *)pShmBuf)->dwShmSize < dwShmSize)) // new, or its creator died before setting it up
 			{
 				// shm head
 				m_pHead = (SHead *)pShmBuf;
@@ -673,6 +658,7 @@ namespace lce
 				m_pDataPtr = (unsigned char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
diff --git a/include/CShm.h b/include/CShm.h
index 9b55613..a53658d 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -108,6 +108,10 @@ namespace lce
 	bool CShm::create(const int iKey, const unsigned long dwSize, const bool bCreate /* =true  */, const bool bReadOnly /* = false*/)
 	{
 		m_bCreate = false;
+		if (!detach())
+		{
+			return false;
+		}
 
 		int iFlag = 0666;
 		if (bCreate)
@@ -124,6 +128,7 @@ namespace lce
 			if ((m_iShmID = shmget(iKey, dwSize, iFlag)) < 0)
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmget error:%s", strerror(errno));
+				m_iShmID = 0;
 				return false;
 			}
 
@@ -133,6 +138,13 @@ namespace lce
 		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
+			m_pShmBuf = NULL;
+			if (m_bCreate)
+			{
+				shmctl(m_iShmID, IPC_RMID, NULL); // not set up: nobody may find it
+				m_bCreate = false;
+			}
+			m_iShmID = 0;
 			return false;
 		}
 
diff --git a/include/CShmArray.h b/include/CShmArray.h
index e8faeaf..96b584b 100644
--- a/include/CShmArray.h
+++ b/include/CShmArray.h
@@ -91,16 +91,13 @@ namespace lce
     {
         size_type dwShmMaxSize = dwNodeSize * sizeof(value_type) + sizeof(SHead);
         // create shm
-        if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+        if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
         {
-            if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
-            {
-                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-                return false;
-            }
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+            return false;
         }
 
-        if (m_oShm.isCreate())
+        if (m_oShm.isCreate() || (!bReadOnly && (((SHead *)m_oShm.getShmBuf())->pNodes == NULL || ((SHead *)m_oShm.getShmBuf())->dwNodeSize < dwNodeSize))) // new, or its creator died before setting it up
         {
             char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
 
-- 
2.43.0


From 8028b7cf732c2f547c9530c76b0f26cecfebeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:05 +0000
Subject: [PATCH 75/78] fix: a worker manager without usable workers crashed at
 the first arrival

---
 include/CNetWorkerMgr.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index ddc004d..c0c7ee2 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -76,6 +76,12 @@ namespace lce
 	int CNetWorkerMgr<T>::init(uint32_t dwThreadNum, uint32_t dwMaxClient)
 	{
 
+		if (dwThreadNum == 0)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,no workers", __FILE__, __LINE__);
+			return -1;
+		}
+
 		if (m_oEvent.init(dwMaxClient * FD_TIMES) < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, strerror(errno));
@@ -88,13 +94,17 @@ namespace lce
 		for (int i = 0; i < dwThreadNum; i++)
 		{
 			CNetWorker *poWorker = new T;
-			m_vecWorkers.push_back(poWorker);
 
 			if (poWorker->init(dwMaxClient * FD_TIMES) != 0)
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,error:%s", __FILE__, __LINE__, poWorker->getErrMsg());
+				delete poWorker;
+				for (size_t j = 0; j < m_vecWorkers.size(); ++j)
+					delete m_vecWorkers[j];
+				m_vecWorkers.clear();
 				return -1;
 			}
+			m_vecWorkers.push_back(poWorker);
 		}
 		return 0;
 	}
-- 
2.43.0


From 4616aad42927e691630fc23bfa271524cbf027ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 76/78] fix: datagrams longer than the initial receive buffer
 were cut off and delivered in part

---
 src/CCommMgr.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b8e3773..092388d 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -236,7 +236,8 @@ namespace lce
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
-            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwInitRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
+            // a datagram has to fit at once
+            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwMaxRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
         }
 
         int iSize = 0;
@@ -256,11 +257,19 @@ namespace lce
             return;
         }
 
-        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), 0, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
+        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), MSG_TRUNC, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
 
         stSession.stClientAddr = pstClientInfo->stClientAddr;
 
-        if (iSize > 0)
+        if (iSize > 0 && iSize > pstClientInfo->pSocketRecvBuf->getFreeSize())
+        {
+            // only a part of it fitted
+            pstClientInfo->pSocketRecvBuf->reset();
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,datagram too long", __FILE__, __LINE__);
+            if (pstServerInfo->pProcessor != NULL)
+                pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_NO_BUFFER);
+        }
+        else if (iSize > 0)
         {
             pstClientInfo->pSocketRecvBuf->addData(iSize);
 
-- 
2.43.0


From dee1ffd22a1d881ddecb26cd620578e1430a32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:11 +0000
Subject: [PATCH 77/78] fix: a socket buffer of initial size 0 could never
 grow, a default-constructed one had no defined size

---
 include/CSocketBuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 93c0233..47ad2a1 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -17,7 +17,7 @@ namespace lce
 		}
 
 		CSocketBuf()
-			: m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
+			: m_iBufSize(0), m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
 		{
 			m_pszBuf = NULL;
 		}
@@ -165,7 +165,7 @@ namespace lce
 
 		void incBuf()
 		{
-			if (m_iBufSize * 2 < m_iDataAllowMaxSize)
+			if (m_iBufSize > 0 && m_iBufSize * 2 < m_iDataAllowMaxSize)
 			{
 				reSize(m_iBufSize * 2);
 			}
@@ -203,7 +203,7 @@ namespace lce
 				return true;
 
 			char *pszNewBuf = new char[iSize];
-			assert(getSize() < iSize);
+			assert(getSize() <= iSize);
 			if (NULL != pszNewBuf)
 			{
 				if (iSize >= getSize())
-- 
2.43.0


From 792473a1e476cae6ea1fbfbf43769b50fcc727de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 78/78] fix: a cookie set again for the same response kept its
 old value

---
 include/CHttpWriter.h | 2 +-
 src/CHttpWriter.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index 647e556..04b330f 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -65,7 +65,7 @@ namespace lce
 			stCookieInfo.sDomain = sDomain;
 			stCookieInfo.sPath = sPath;
 			stCookieInfo.sValue = sstr.str();
-			m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+			m_mapCookie[sName] = stCookieInfo;
 		}
 
 		void setCookie(const string &sName, const string &sValue, const string &sDomain = "", const string &sPath = "", const time_t dwCookieTime = 0);
diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 86c5222..b325875 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -16,7 +16,7 @@ namespace lce
 		stCookieInfo.sDomain = sDomain;
 		stCookieInfo.sPath = sPath;
 		stCookieInfo.sValue = sValue;
-		m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+		m_mapCookie[sName] = stCookieInfo;
 	}
 
 	void CHttpWriter::end()
-- 
2.43.0

