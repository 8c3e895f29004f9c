From 72a4ee7cbcf7b98b0be5cfb6ec620d25b88c04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 01/66] fix: close listening sockets when an InSocket is
 destroyed

---
 src/common/socket/InSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/socket/InSocket.cpp b/src/common/socket/InSocket.cpp
index 58162d1..a4582c3 100644
--- a/src/common/socket/InSocket.cpp
+++ b/src/common/socket/InSocket.cpp
@@ -98,6 +98,8 @@ int InSocket::enable() {
         goto fail;
     }
 
+    this->_isOpen = true;
+
     return 0;
 
 fail:
-- 
2.43.0


From f5baf956974001e868b7459789ca16c226fcfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 02/66] fix: close the directory handle when reading a
 directory fails

---
 src/common/utils/util.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 9caed66..6c768da 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -147,7 +147,7 @@ static int getPathsInDirectory(const std::string& directoryPath,
                                const std::string& prefix,
                                queue<string>* directoriesOut,
                                queue<FileData>* filesOut) {
-    DIR* directory;
+    DIR* directory = nullptr;
     struct dirent entryData, *currEntry;
     vector<string> directories;
     vector<string> fileRelativePaths;
@@ -178,7 +178,11 @@ static int getPathsInDirectory(const std::string& directoryPath,
             }
         }
     }
-    FAIL_ON(closedir(directory) != 0);
+    {
+        int status = closedir(directory);
+        directory = nullptr;
+        FAIL_ON(status != 0);
+    }
 
     sort(directories.begin(), directories.end(), std::less<string>());
     sort(fileRelativePaths.begin(), fileRelativePaths.end(),
@@ -193,6 +197,7 @@ static int getPathsInDirectory(const std::string& directoryPath,
     return 0;
 
 fail:
+    if (directory != nullptr) closedir(directory);
     PRINT_WARN("%s\n", directoryPath.c_str());
     return -1;
 }
-- 
2.43.0


From 1744c5132b5f31f8fe5ab0e23b8ed55bb7bb50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 03/66] fix: release the robots.txt buffer and stream, and size
 the buffer for its terminator

---
 src/crawler/types/Robotstxt.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..8161f15 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -59,9 +59,14 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
     string disallow = "Disallow: ";
     int isInBrackets = 0;
     FILE* stream;
-    auto robpg = new char[rob.size()];
+    auto robpg = new char[rob.size() + 1];
     strcpy(robpg, rob.c_str());
     stream = fmemopen(robpg, rob.size(), "r");
+    if (stream == nullptr) {
+        PRINT_WARN("Error reading the Robots page!\n");
+        delete[] robpg;
+        return;
+    }
     const int bufmax = 1000;
     char buf[bufmax];
     while (fgets(buf, bufmax, stream) != nullptr) {
@@ -79,6 +84,8 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
             this->dont_allow(dontCrawlLink);
         }
     }
+    fclose(stream);
+    delete[] robpg;
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
 }
 
-- 
2.43.0


From ce98607b1d09b75d40b569f2eb8439d1a848c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 04/66] fix: free the curl error buffer of a page download

---
 src/crawler/utils/Page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..f65bdad 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -83,7 +83,7 @@ void Page::downloadContent() {
         return;
     }
     string strUrl = getUrl();
-    auto errorstr = new char[CURL_ERROR_SIZE];
+    char errorstr[CURL_ERROR_SIZE] = "";
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
-- 
2.43.0


From 3ba604b5c4746958b476c4185bbff4968ecbee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 05/66] fix: free the XPath context when namespace registration
 fails

---
 src/crawler/utils/MwsGetMath.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..8c4c49c 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -192,6 +192,7 @@ xmlXPathObjectPtr get_XMLNodeset(xmlDocPtr doc, const xmlChar* xpath) {
         PRINT_WARN(
             "Error: unable to register NS with prefix=\"%s\" and href=\"%s\"\n",
             prefix, href);
+        xmlXPathFreeContext(context);
         return nullptr;
     }
 
-- 
2.43.0


From c9486ee8ce319e84d5a9900a693330b5ef6375e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 06/66] fix: terminate the MathML tag list read from its file

---
 src/crawler/utils/MwsGetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 8c4c49c..4e68dc3 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -273,7 +273,7 @@ void store_mathml_tags() {
     is.seekg(0, ios::beg);
     is.read(alltags, length);
     is.close();
-    string all_tags(alltags);
+    string all_tags(alltags, is.gcount());
     delete[] alltags;
     int pos = 0;
 
-- 
2.43.0


From 956bec697f20a26ccd483b5a1ba90158f482770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 07/66] fix: skip a formula when its memory stream cannot be
 opened

---
 src/crawler/utils/MwsGetMath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 4e68dc3..7e98d9d 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -336,6 +336,10 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             char* buf;
             size_t sz;
             FILE* stream = open_memstream(&buf, &sz);
+            if (stream == nullptr) {
+                PRINT_WARN("Error while creating memory stream\n");
+                continue;
+            }
 
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
-- 
2.43.0


From 0f40764245007506c217a6ce1d4509f427823ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 08/66] fix: close the output buffer when the data writer
 cannot be created

---
 src/mws/xmlparser/processMwsHarvest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..8cdd14a 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -149,6 +149,7 @@ static inline int setupCopyToStringWriter(MwsHarvest_SaxUserData* data) {
         return -1;
     } else if ((data->stringWriter = xmlNewTextWriter(outPtr)) == nullptr) {
         PRINT_WARN("Error while creating the XML Writer\n");
+        xmlOutputBufferClose(outPtr);
         return -1;
     }
 
-- 
2.43.0


From 3ec47e35e3eaef7cfa95373d4b087336eb4ee8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 09/66] fix: free the children iterator of a range query

---
 src/mws/query/SearchContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..def2305 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -115,7 +115,7 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
     ExpressionDecoder* decoder;
 
     RangeCtxt(pair<double, double> bounds, ExpressionDecoder* decoder)
-        : bounds(bounds), decoder(decoder) {}
+        : bounds(bounds), decoder(decoder), iterator(nullptr) {}
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
@@ -129,6 +129,7 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         // XXX:
         typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
         // malloc'ed because there is no default constructor
+        free(iterator);
         iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
         assert(iterator != nullptr);
         *iterator = it;
-- 
2.43.0


From b8c22fea17cd13fd4871474b41d55c4555acaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 10/66] fix: keep the fields of a crawl request inside their
 buffers and free replaced ones

---
 src/crawler/daemon/CrawlerDaemon.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..e8e1219 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -97,33 +97,36 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
         (connection_info_struct*)coninfo_cls;
 
     if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
+        free(con_info->urlstart);
+        con_info->urlstart = nullptr;
+        if ((size > 0) && (size < MAXNAMESIZE)) {
             char* urlstart;
             urlstart = (char*)malloc(MAXNAMESIZE);
             if (!urlstart) return MHD_NO;
 
             strcpy(urlstart, data);
             con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
+        }
 
         return MHD_YES;
     }
     if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
+        free(con_info->count);
+        con_info->count = nullptr;
+        if ((size > 0) && (size < MAXNAMESIZE)) {
             char* count;
             count = (char*)malloc(MAXNAMESIZE);
             if (!count) return MHD_NO;
 
             strcpy(count, data);
             con_info->count = count;
-        } else
-            con_info->count = nullptr;
+        }
 
         return MHD_YES;
     }
     if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
+        if ((size > 0) && (size < MAXNAMESIZE) &&
+            (con_info->dontcrawlnr < MAXDONTCRAWLSIZE)) {
             char* dontcrawl;
             dontcrawl = (char*)malloc(MAXNAMESIZE);
             if (!dontcrawl) return MHD_NO;
@@ -131,8 +134,7 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
             strcpy(dontcrawl, data);
             con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
             con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
+        }
 
         return MHD_YES;
     }
-- 
2.43.0


From e4574f2b70eec351561ae02180efd3f3e44e29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 11/66] fix: tolerate a missing or oversized crawler start page

---
 src/crawler/daemon/CrawlerDaemon.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e8e1219..75f115c 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -268,7 +268,11 @@ CrawlerDaemon::CrawlerDaemon() {
     sharedQueue = nullptr;
 
     FILE* getpg = fopen(GETRESPONSE_PATH, "r");
-    fread(askpage, 1, MAXASKPAGESIZE, getpg);
+    if (getpg == nullptr) {
+        PRINT_WARN("Error while opening %s\n", GETRESPONSE_PATH);
+        return;
+    }
+    fread(askpage, 1, MAXASKPAGESIZE - 1, getpg);
     fclose(getpg);
 }
 
-- 
2.43.0


From e7f2ab08b9e310d45e2d70d5aa86ea84533bb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 12/66] fix: release the upload buffer of an aborted request

---
 src/mws/daemon/Daemon.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..e0ad91b 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -156,6 +156,22 @@ static int acceptPolicyCallback(void* cls, const sockaddr* addr,
 
 
 
+/**
+ * @brief Called when a request ends, including when the client aborted it.
+ * Releases the upload buffer if the request handler did not consume it.
+ */
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode toe) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(toe);
+
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
                                  const char* url, const char* method,
                                  const char* version, const char* upload_data,
@@ -195,6 +211,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
                                    memstream->getInput());
             if (nbytes <= 0) {
                 delete memstream;
+                *ptr = nullptr;
                 return MHD_NO;
             }
 
@@ -213,6 +230,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
     delete memstream;
+    *ptr = nullptr;
 
     // Check if query failed or is empty
     if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {
@@ -285,7 +303,9 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
-                            MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
+                            MHD_OPTION_CONNECTION_LIMIT, 20,
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            requestCompletedCallback, nullptr, MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
             formattedString("MHD_start_daemon: %s", strerror(errno)));
-- 
2.43.0


From aafd63d0bbe91a8f1e135f79cea2978b116b96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 13/66] fix: answer a failed query with a server error instead
 of terminating

---
 src/mws/daemon/Daemon.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index e0ad91b..7953aea 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -244,7 +244,12 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     mwsQuery->applyRestrictions();
 #endif
 
-    unique_ptr<GenericAnswer> answset(qh->handleQuery(mwsQuery.get()));
+    unique_ptr<GenericAnswer> answset;
+    try {
+        answset.reset(qh->handleQuery(mwsQuery.get()));
+    } catch (const std::exception& e) {
+        PRINT_WARN("%s\n", e.what());
+    }
     if (answset == nullptr) {
         PRINT_WARN("Error while obtaining answer set\n");
         return sendXmlGenericResponse(connection, XML_MWS_SERVER_ERROR,
-- 
2.43.0


From acb69586a1c2f8369f93d25372d35bfc9e2d757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 14/66] fix: do not throw through the XML parser when a data
 element cannot be stored

---
 src/mws/index/IndexBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..8fed84e 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -215,7 +215,12 @@ HarvestResult loadHarvestFromFd(IndexBuilder* indexBuilder, int fd,
             return _IndexBuilder->indexContentMath(token, exprUri, crawlId);
         }
         CrawlId processData(const string& data) {
-            return _IndexBuilder->indexCrawlData(data);
+            try {
+                return _IndexBuilder->indexCrawlData(data);
+            } catch (const std::exception& e) {
+                PRINT_WARN("Ignoring a data element: %s\n", e.what());
+                return CRAWLID_NULL;
+            }
         }
 
      private:
-- 
2.43.0


From 8567896ed020776999b7fb78277f8cb0841f0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 15/66] fix: keep existing index data in mws-index

---
 src/mws/index/IndexWriter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..4f57961 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -40,7 +40,7 @@ namespace index {
 struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
-    bool deleteOldData;
+    bool deleteOldData = false;
 };
 
 /**
-- 
2.43.0


From b2a4b0e8c701a6fca1215a6bf2c6f306da98e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 16/66] fix: report errors while writing the index image

---
 src/mws/index/IndexWriter.cpp | 15 ++++++++++++---
 src/mws/index/TmpIndex.cpp    |  4 ++--
 src/mws/index/TmpIndex.hpp    |  2 +-
 src/mws/index/memsector.c     | 13 ++++++++++---
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..dbcdb7c 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -89,8 +89,14 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    if (memsector_create(
+            &mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str()) != 0) {
+        return EXIT_FAILURE;
+    }
+    if (index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Error while writing the index\n");
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
@@ -98,7 +104,10 @@ int createCompressedIndex(const IndexConfiguration& config) {
     fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
             std::ios::out);
     meaningDictionary.save(os);
-    fb.close();
+    if (fb.close() == nullptr || !os) {
+        PRINT_WARN("Error while writing the meaning dictionary\n");
+        return EXIT_FAILURE;
+    }
 
     return EXIT_SUCCESS;
 }
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..5369658 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -118,7 +118,7 @@ class TmpIndex {
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..7c562c5 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -91,10 +91,17 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
+    int status = 0;
+    if (fseek(msw->file, 0, SEEK_SET) != 0 ||
+        fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1 ||
+        ferror(msw->file)) {
+        status = -1;
+    }
+    if (fclose(msw->file) != 0) {
+        status = -1;
+    }
 
-    return fclose(msw->file);
+    return status;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
-- 
2.43.0


From 825c765c853f129a0eb14aef6675b3f17c59b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 17/66] fix: reject an index image smaller than its header
 claims

---
 src/mws/index/memsector.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index 7c562c5..c3cfbe3 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -114,6 +114,11 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     }
 
     // read and validate memsector data
+    if (ms->mmap_handle.size < sizeof(memsector_header_t)) {
+        PRINT_WARN("File %s is not a memsector (truncated)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
     if (memsector->magic != MEMSECTOR_MAGIC) {
@@ -127,6 +132,12 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size >
+        ms->mmap_handle.size - sizeof(memsector_header_t)) {
+        PRINT_WARN("Memsector %s is corrupted (truncated)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
-- 
2.43.0


From 4d8939697bcc768c0428be106c66e01aa82cc6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 18/66] fix: close the files of a harvest whose conversion
 fails

---
 src/crawler/harvests2json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..4251b12 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -277,13 +277,20 @@ int main(int argc, char* argv[]) {
                 vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
                     config.encoding, data.getIndexHandle(),
                     data.getMeaningDictionary(), fd);
+                int status = 0;
                 for (const ParseResult* parseResult : parseResults) {
-                    writeParseResultToFile(*parseResult, output);
+                    try {
+                        writeParseResultToFile(*parseResult, output);
+                    } catch (const exception& e) {
+                        PRINT_WARN("%s: %s\n", path.c_str(), e.what());
+                        status = -1;
+                    }
                     delete parseResult;
                 }
 
                 close(fd);
                 fclose(output);
+                if (status != 0) return status;
                 PRINT_LOG("Processed %s\n", path.c_str());
             } else {
                 PRINT_LOG("Skipping \"%s\": bad extension\n", path.c_str());
-- 
2.43.0


From d3eb62c7a52ce4019af5ae8e27def6246f93acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:20 +0000
Subject: [PATCH 19/66] fix: keep the full size of a file mapping

---
 src/common/utils/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..c67fbb9 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    uint64_t size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 7f80c11a900aa448bf0229108d91b2f1a5e355cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:12 +0000
Subject: [PATCH 20/66] fix: do not serve an index that could not be built

---
 src/mws/mwsd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..cccd81e 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -192,7 +192,10 @@ int main(int argc, char* argv[]) {
 
             if (qh == nullptr && FlagParser::hasArg('I')) {
                 PRINT_LOG("Attempting to build it from harvests\n");
-                createCompressedIndex(indexConfig);
+                if (createCompressedIndex(indexConfig) != EXIT_SUCCESS) {
+                    PRINT_WARN("Could not build the index. Aborting...\n");
+                    return EXIT_FAILURE;
+                }
                 qh = new IndexQueryHandler(indexConfig.dataPath, config);
             } else if (qh == nullptr) {
                 PRINT_WARN("Invalid index and no harvests supplied."
-- 
2.43.0


From 5704e9c1828deaac5d0e215f8f5b55f7f0fc1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 21/66] fix: do not count a formula that could not be stored

---
 src/mws/index/IndexBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index 8fed84e..7eca718 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -110,7 +110,11 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) !=
+                0) {
+                PRINT_WARN("Skipping a formula (could not store)\n");
+                return;
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
-- 
2.43.0


From 6c822a5c71bfbdfed94b4bda1ca6409de93f48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 22/66] fix: report read errors of the formula database

---
 src/mws/dbc/LevFormulaDb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..5b94357 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -113,11 +113,11 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
     string fmId = to_string(formulaId) + "!";
     it->Seek(fmId);
     for (unsigned i = 0; i < limitMin; i++) {
-        if (!it->Valid()) return 0;
+        if (!it->Valid()) return it->status().ok() ? 0 : -1;
         it->Next();
     }
 
-    if (!it->Valid()) return 0;
+    if (!it->Valid()) return it->status().ok() ? 0 : -1;
 
     std::string maxKey = fmId + "\xff";
     for (unsigned i = 0;
@@ -137,7 +137,7 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
         if (queryCallback(crawlId, formulaPath) != 0) return -1;
     }
 
-    return 0;
+    return it->status().ok() ? 0 : -1;
 }
 
 }  // namespace dbc
-- 
2.43.0


From 7aa379fab928be0ffaa80822ff01e7f622fba4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 23/66] fix: fail a query whose hits cannot be retrieved

---
 src/mws/query/SearchContext.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index def2305..4688062 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -49,6 +49,8 @@ using std::vector;
 using std::string;
 #include <memory>
 using std::unique_ptr;
+#include <stdexcept>
+using std::runtime_error;
 
 #include "common/utils/ContainerIterator.hpp"
 using common::utils::ContainerIterator;
@@ -294,7 +296,8 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
         bkTablePos++;
     }
 
-    auto result = new MwsAnswset();
+    unique_ptr<MwsAnswset> resultHolder(new MwsAnswset());
+    MwsAnswset* result = resultHolder.get();
     size_t currentToken = 0;  // index for the expression vector
     unsigned int found = 0;   // # of found matches
     int lastSolved = -1;      // last qvar/range that was solved
@@ -391,8 +394,10 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
                     }
                     ;
 
-                    dbQueryManager->query(formulaId, dbOffset, dbMaxSize,
-                                          callback);
+                    if (dbQueryManager->query(formulaId, dbOffset, dbMaxSize,
+                                              callback) != 0) {
+                        throw runtime_error("Error while retrieving hits");
+                    }
                 }
                 if (options.includeMwsIds) {
                     result->ids.insert(A::getFormulaId(currentNode));
@@ -432,7 +437,7 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     result->time = elapsed_time.count();
     result->total = found;
 
-    return result;
+    return resultHolder.release();
 }
 
 // Declare specializations
-- 
2.43.0


From 5506c8b5730d4b8b820ab3b78aaea527b2485947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 24/66] fix: fail an experimental query whose hits cannot be
 retrieved

---
 src/mws/daemon/IndexQueryHandler.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..e37a13d 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -110,9 +110,12 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
+    if (dbQueryManager->query((FormulaId)leaf->formula_id,
+                              mwsQuery->attrResultLimitMin,
+                              mwsQuery->attrResultMaxSize,
+                              queryCallback) != 0) {
+        return QUERY_ERROR;
+    }
     result->total += leaf->num_hits;
 
     return QUERY_CONTINUE;
@@ -137,8 +140,11 @@ GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
             encodedFormula.data = encodedQuery.data(),
             encodedFormula.size = encodedQuery.size();
 
-            query_engine_run(_index.getIndexHandle(), &encodedFormula,
-                             result_callback, &ctxt);
+            if (query_engine_run(_index.getIndexHandle(), &encodedFormula,
+                                 result_callback, &ctxt) == QUERY_ERROR) {
+                delete result;
+                return nullptr;
+            }
         } else {
             SearchContext ctxt(encodedQuery, query->options,
                                queryInfo.rangeBounds,
-- 
2.43.0


From 8ae1271567a9d5e1ba317035dc2efed244800da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 25/66] fix: report errors while writing JSON answers

---
 src/mws/xmlparser/MwsIdsResponseFormatter.cpp     | 5 +++--
 src/mws/xmlparser/MwsJsonResponseFormatter.cpp    | 6 ++++--
 src/mws/xmlparser/SchemaJsonResponseFormatter.cpp | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
index 916a12b..af84d4b 100644
--- a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
@@ -90,11 +90,12 @@ int MwsIdsResponseFormatter::writeData(const GenericAnswer* ans,
                            json_object_new_int(answerSet.ids.size()));
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    size_t written =
+        fwrite(json_string.c_str(), json_string.size(), 1, output);
 
     json_object_put(json_doc);
 
-    return json_string.size();
+    return (written == 1) ? (int)json_string.size() : -1;
 }
 
 }  // namespace parser
diff --git a/src/mws/xmlparser/MwsJsonResponseFormatter.cpp b/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
index 692f0fd..af422fc 100644
--- a/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
@@ -108,10 +108,12 @@ int MwsJsonResponseFormatter::writeData(const GenericAnswer* ans,
     json_object_object_add(json_doc, "hits", hits);
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    size_t written =
+        fwrite(json_string.c_str(), json_string.size(), 1, output);
 
     json_object_put(json_doc);
-    return json_string.size();
+
+    return (written == 1) ? (int)json_string.size() : -1;
 }
 }
 }
diff --git a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
index dd9ed0f..e45e5bc 100644
--- a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
@@ -98,10 +98,12 @@ int SchemaJsonResponseFormatter::writeData(const GenericAnswer* ans,
     json_object_object_add(json_doc, "schemata", schemata);
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    size_t written =
+        fwrite(json_string.c_str(), json_string.size(), 1, output);
 
     json_object_put(json_doc);
-    return json_string.size();
+
+    return (written == 1) ? (int)json_string.size() : -1;
 }
 }
 }
-- 
2.43.0


From d4226f3b6ac49be7d939a214fc68e02edc2a68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:02 +0000
Subject: [PATCH 26/66] fix: report errors while writing XML answers

---
 src/mws/xmlparser/MwsXmlResponseFormatter.cpp | 10 +++++++---
 .../xmlparser/SchemaXmlResponseFormatter.cpp  | 20 ++++++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
index 1a82b39..ee56dc2 100644
--- a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
@@ -72,7 +72,8 @@ static inline int fileXmlOutputWriteCallback(void* _ctxt, const char* data,
     LocalContext* ctxt = (LocalContext*)_ctxt;
     size_t bytes_written = fwrite(data, sizeof(char), data_size, ctxt->file);
     ctxt->total_bytes_written += bytes_written;
-    return bytes_written;
+
+    return (bytes_written == (size_t)data_size) ? data_size : -1;
 }
 
 namespace mws {
@@ -192,8 +193,11 @@ int MwsXmlResponseFormatter::writeData(const GenericAnswer* ans,
                     }
                 }
                 // <data> ... </data>
-                xmlTextWriterWriteElement(writerPtr, BAD_CAST "data",
-                                          BAD_CAST answer->data.c_str());
+                if (ret != -1) {
+                    ret = xmlTextWriterWriteElement(
+                        writerPtr, BAD_CAST "data",
+                        BAD_CAST answer->data.c_str());
+                }
             }
             if (ret == -1) {
                 PRINT_WARN("Error while writing xml substpairs\n");
diff --git a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
index c5c0c2e..83400ab 100644
--- a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
@@ -66,7 +66,8 @@ static inline int fileXmlOutputWriteCallback(void* _ctxt, const char* data,
     LocalContext* ctxt = (LocalContext*)_ctxt;
     size_t bytes_written = fwrite(data, sizeof(char), data_size, ctxt->file);
     ctxt->total_bytes_written += bytes_written;
-    return bytes_written;
+
+    return (bytes_written == (size_t)data_size) ? data_size : -1;
 }
 
 namespace mws {
@@ -230,17 +231,18 @@ int SchemaXmlResponseFormatter::printCmmlToken(const CmmlToken* root,
     const char* content = root->getTextContent().c_str();
 
     ret = xmlTextWriterStartElement(wrt, BAD_CAST tag);
-    if (root->getTextContent() != "") {
+    if (ret != -1 && root->getTextContent() != "") {
         ret = xmlTextWriterWriteString(wrt, BAD_CAST content);
     }
-
-    for (const CmmlToken* child : root->getChildNodes()) {
-        ret = printCmmlToken(child, wrt);
-        if (ret == -1) break;
+    if (ret != -1) {
+        for (const CmmlToken* child : root->getChildNodes()) {
+            ret = printCmmlToken(child, wrt);
+            if (ret == -1) break;
+        }
+    }
+    if (ret != -1) {
+        ret = xmlTextWriterEndElement(wrt);
     }
-
-    ret = xmlTextWriterEndElement(wrt);
-
     if (ret == -1) {
         PRINT_WARN("Error while printing <%s>\n", tag);
     }
-- 
2.43.0


From a666cd090adf1c958b14c29bec442c59d5e79d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 27/66] fix: do not throw through the C query engine

---
 src/mws/daemon/IndexQueryHandler.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index e37a13d..bfd3f57 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -110,10 +110,16 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    if (dbQueryManager->query((FormulaId)leaf->formula_id,
-                              mwsQuery->attrResultLimitMin,
-                              mwsQuery->attrResultMaxSize,
-                              queryCallback) != 0) {
+    try {
+        if (dbQueryManager->query((FormulaId)leaf->formula_id,
+                                  mwsQuery->attrResultLimitMin,
+                                  mwsQuery->attrResultMaxSize,
+                                  queryCallback) != 0) {
+            return QUERY_ERROR;
+        }
+    } catch (const exception& e) {
+        // exceptions must not pass through the (C) query engine
+        PRINT_WARN("Error while retrieving hits: %s\n", e.what());
         return QUERY_ERROR;
     }
     result->total += leaf->num_hits;
-- 
2.43.0


From eb8cc27917963a63ebc0199e1dd6c997cc4752eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 28/66] fix: do not throw through the XML parser when an
 expression cannot be processed

---
 src/mws/xmlparser/processMwsHarvest.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 8cdd14a..64359f9 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -49,6 +49,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <unistd.h>
 
 #include <cinttypes>
+#include <exception>
 #include <string>
 using std::string;
 #include <vector>
@@ -355,14 +356,20 @@ static void my_endElement(void* user_data, const xmlChar* name) {
         } else if (data->currentToken->isRoot()) {
             int ret;
             auto it = data->localIdToCrawlIds.find(data->localId);
-            if (data->shouldProcessData &&
-                it != data->localIdToCrawlIds.end()) {
-                CrawlId crawlId = it->second;
-                ret = data->harvestProcessor->processExpression(
-                    data->currentToken, data->exprUri, crawlId);
-            } else {
-                ret = data->harvestProcessor->processExpression(
-                    data->currentToken, data->exprUri, CRAWLID_NULL);
+            try {
+                if (data->shouldProcessData &&
+                    it != data->localIdToCrawlIds.end()) {
+                    CrawlId crawlId = it->second;
+                    ret = data->harvestProcessor->processExpression(
+                        data->currentToken, data->exprUri, crawlId);
+                } else {
+                    ret = data->harvestProcessor->processExpression(
+                        data->currentToken, data->exprUri, CRAWLID_NULL);
+                }
+            } catch (const std::exception& e) {
+                // exceptions must not pass through the XML parser
+                PRINT_WARN("Ignoring an expression: %s\n", e.what());
+                ret = -1;
             }
             if (ret != -1) {
                 data->parsedExpr += ret;
-- 
2.43.0


From fe61de80d76b192c9bb359e4d4b76f10a9ee779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 29/66] fix: fail docs2harvest properly when its configuration
 cannot be read

---
 src/crawler/docs2harvest.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index 3d361b9..f95e32c 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -76,12 +76,17 @@ int main(int argc, char* argv[]) {
         return EXIT_FAILURE;
     }
 
-    if (FlagParser::hasArg('o')) {
-        outputDirectory = FlagParser::getArg('o');
-        create_directory(outputDirectory);
-    }
-    if (FlagParser::hasArg('c')) {
-        config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+    try {
+        if (FlagParser::hasArg('o')) {
+            outputDirectory = FlagParser::getArg('o');
+            create_directory(outputDirectory);
+        }
+        if (FlagParser::hasArg('c')) {
+            config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+        }
+    } catch (exception& e) {
+        fprintf(stderr, "%s\n", e.what());
+        return EXIT_FAILURE;
     }
     if (FlagParser::hasArg('x')) {
         config.documentIdXpath = FlagParser::getArg('x');
-- 
2.43.0


From 8abd918e86c8f79a8f7152e07f3ac7733414de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 30/66] fix: skip formulae which are not indexed or have no
 data in harvests2json

---
 src/crawler/harvests2json.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 4251b12..4abc008 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -386,13 +386,18 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
         numSubExpressions += result->total;
+        auto doc = documents.find(crawlId);
+        if (result->ids.empty() || doc == documents.end()) {
+            PRINT_WARN("Skipping a formula (not indexed or without data)\n");
+            delete result;
+            return;
+        }
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
         hit->uri = exprUri;
         hit->xpath = subexpression->getXpath();
 
-        ParseResult* doc = documents[crawlId];
-        (doc->idMappings[fmId]).push_back(hit);
+        (doc->second->idMappings[fmId]).push_back(hit);
         delete result;
     });
 
-- 
2.43.0


From 3860995c78f90cc96c7d6f3f29abf1ef42c2bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 31/66] fix: ignore links to avoid when the start URL of a
 crawl is invalid

---
 src/crawler/crawler/MwsCrawler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..06ed20e 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,10 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    // There is no site to avoid links on without a valid starting URL
+    if (rtxt != nullptr) rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From 72cb85da42287ffae9c8490c780ea6c54420c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 32/66] fix: access the crawl queue only while holding its lock

---
 src/crawler/crawler/MwsCrawler.cpp | 5 +++--
 src/crawler/crawlerd.cpp           | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 06ed20e..3d87d6d 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -180,13 +180,14 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
+        pthread_mutex_lock(&sq->lock);
         while ((*sq).sharedQueue.empty()) {
+            pthread_mutex_unlock(&sq->lock);
             sleep(1);  // TODO
+            pthread_mutex_lock(&sq->lock);
         }
 
         QueueNode qNode = (*sq).sharedQueue.front();
-
-        pthread_mutex_lock(&sq->lock);
         (*sq).sharedQueue.pop();
         pthread_mutex_unlock(&sq->lock);
 
diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..48f35e5 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -148,9 +148,11 @@ int main(int argc, char* argv[]) {
     crawlerDaemon.stop();
 
     // delete sharedQueue
+    pthread_mutex_lock(&sq->lock);
     while (!(*sq).sharedQueue.empty()) {
         sq->sharedQueue.pop();
     }
+    pthread_mutex_unlock(&sq->lock);
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From 926ff0a90161b4a5a3e2ec545bca0309fbdd2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 33/66] fix: queue a link only once when a page repeats it

---
 src/crawler/crawler/MwsCrawler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 3d87d6d..6c42403 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -161,8 +161,9 @@ void Crawler::start() {
         vector<GURL>::iterator it;
         for (it = page_links.begin(); it != page_links.end(); ++it) {
             GURL url_to_add = (*it);
+            // a page may contain the same link several times
+            if (!all_urls.insert(getQueryable(url_to_add)).second) continue;
             url_queue.push(url_to_add);
-            all_urls.insert(getQueryable(url_to_add));
         }
     }
 
-- 
2.43.0


From 5d87043c2f8d3bc2be3076e213430721d52322f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 34/66] fix: let schemad end when it crashes

---
 src/mws/schemad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..2f34778 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -169,6 +169,9 @@ static void catch_sig(int sig) {
         struct sigaction new_sa;
         memset(&new_sa, 0, sizeof(struct sigaction));
         new_sa.sa_handler = SIG_DFL;
+        // also reset the handling for SIGSEGV, otherwise there will be an
+        // endless chain of signal handling
+        sigaction(SIGSEGV, &new_sa, nullptr);
         sigaction(SIGTERM, &new_sa, nullptr);
         sigaction(SIGABRT, &new_sa, nullptr);
         // let it crash and generate a core dump
-- 
2.43.0


From b7cb3ba084f4f30c736487b753ba0e08ebe9a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 35/66] fix: restore the action of SIGTERM in crawlerd

---
 src/crawler/crawlerd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index 48f35e5..09ac9d3 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -142,7 +142,7 @@ int main(int argc, char* argv[]) {
         fprintf(stderr, "sigprocmask - SIG_SETMASK");
     if (sigaction(SIGINT, &old_sa1, nullptr) == -1)
         fprintf(stderr, "sigaction - close");
-    if (sigaction(SIGINT, &old_sa2, nullptr) == -1)
+    if (sigaction(SIGTERM, &old_sa2, nullptr) == -1)
         fprintf(stderr, "sigaction - close");
 
     crawlerDaemon.stop();
-- 
2.43.0


From 179ec50a78026ee1f63fd3ebc30f6aae264b1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 36/66] fix: reject an index image whose root lies outside of
 it

---
 src/mws/index/memsector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index c3cfbe3..d6bff14 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -143,6 +143,12 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->root_off >=
+        ms->mmap_handle.size / MEMSECTOR_ALLOC_UNIT) {
+        PRINT_WARN("Memsector %s is corrupted (invalid root)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
 
     // initialize handle data
     ms->ms = memsector;
-- 
2.43.0


From 67d4a9a967e9b5692768a18fca5dbcdebc8c1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 37/66] fix: reject an index image whose building was
 interrupted

---
 src/mws/index/memsector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index d6bff14..d1fcc32 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -143,8 +143,10 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
-    if (memsector->root_off >=
-        ms->mmap_handle.size / MEMSECTOR_ALLOC_UNIT) {
+    // the header gets its root only when the image is complete
+    if (memsector->root_off <
+            sizeof(memsector_header_t) / MEMSECTOR_ALLOC_UNIT ||
+        memsector->root_off >= ms->mmap_handle.size / MEMSECTOR_ALLOC_UNIT) {
         PRINT_WARN("Memsector %s is corrupted (invalid root)\n", path);
         mmap_unload(&ms->mmap_handle);
         return -1;
-- 
2.43.0


From 178980033d2fb52044ec9979fea1fc628bf35965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 38/66] fix: complete the index image after all other parts of
 the index

---
 src/mws/index/IndexWriter.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index dbcdb7c..f040a34 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,6 +28,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <errno.h>
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
@@ -55,6 +58,7 @@ namespace index {
 
 int createCompressedIndex(const IndexConfiguration& config) {
     const std::string output_dir = config.dataPath;
+    const std::string image_path = output_dir + "/" + INDEX_MEMSECTOR_FILE;
     memsector_writer_t mwsr;
     unique_ptr<dbc::CrawlDb> crawlDb;
     unique_ptr<dbc::FormulaDb> formulaDb;
@@ -66,6 +70,13 @@ int createCompressedIndex(const IndexConfiguration& config) {
 
     try {
         create_directory(output_dir);
+        // if the build is interrupted, the old image must not be left with
+        // other parts that do not belong to it
+        if (config.deleteOldData && unlink(image_path.c_str()) != 0 &&
+            errno != ENOENT) {
+            PRINT_WARN("Could not delete %s\n", image_path.c_str());
+            return EXIT_FAILURE;
+        }
         auto crawlLevDb = new dbc::LevCrawlDb();
         crawlLevDb->create_new((output_dir + "/" + CRAWL_DB_FILE).c_str(),
                                config.deleteOldData);
@@ -89,8 +100,16 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    if (memsector_create(
-            &mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str()) != 0) {
+    // the image is completed last: it is only valid if all other parts are
+    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
+            std::ios::out);
+    meaningDictionary.save(os);
+    if (fb.close() == nullptr || !os) {
+        PRINT_WARN("Error while writing the meaning dictionary\n");
+        return EXIT_FAILURE;
+    }
+
+    if (memsector_create(&mwsr, image_path.c_str()) != 0) {
         return EXIT_FAILURE;
     }
     if (index.exportToMemsector(&mwsr) != 0) {
@@ -101,14 +120,6 @@ int createCompressedIndex(const IndexConfiguration& config) {
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
 
-    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
-            std::ios::out);
-    meaningDictionary.save(os);
-    if (fb.close() == nullptr || !os) {
-        PRINT_WARN("Error while writing the meaning dictionary\n");
-        return EXIT_FAILURE;
-    }
-
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 3183a2ea257c1816599b2f84d33b20ff0b6d6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 39/66] fix: exit with failure when crawlerd cannot start

---
 src/crawler/crawlerd.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index 09ac9d3..904a016 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -81,14 +81,14 @@ int main(int argc, char* argv[]) {
 
     if ((ret = FlagParser::parse(argc, argv)) != 0) {
         fprintf(stderr, "%s", FlagParser::getUsage().c_str());
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     restPort = atoi(FlagParser::getArg('p').c_str());
     if (restPort <= 0 || restPort > 65535) {
         fprintf(stderr, "\"%s\" is not a valid port number\n",
                 FlagParser::getArg('p').c_str());
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // get the Data Directory for the crawler
@@ -102,20 +102,24 @@ int main(int argc, char* argv[]) {
     if (ret) {
         perror("");
         fprintf(stderr, "Failed to initialize Thread!\n");
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // Start the Crawler on a second Thread
     auto ci = new CrawlerInfo;
     ci->sharedQueuePtr = sq;
     ci->dataDirectory = dataDir;
-    ThreadWrapper::run(*startCrawler, (void*)ci);
+    ret = ThreadWrapper::run(*startCrawler, (void*)ci);
+    if (ret != 0) {
+        fprintf(stderr, "Failed to start the crawler\n");
+        exit(EXIT_FAILURE);
+    }
 
     // Starting the daemon
     ret = crawlerDaemon.start(restPort, sq);
     if (ret != 0) {
         fprintf(stderr, "Failure while starting the Crawler Daemon\n");
-        exit(0);
+        exit(EXIT_FAILURE);
     }
 
     // Preparing the Signal Action
-- 
2.43.0


From 55ad8d107d33c14f4c1cdd3fd62bc2ee85b869fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 40/66] fix: report errors while writing a harvest

---
 src/crawler/docs2harvest.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index f95e32c..c586897 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -140,7 +140,15 @@ int main(int argc, char* argv[]) {
         }
     }
     fputs("</mws:harvest>\n", harvestOutStream);
-    fclose(harvestOutStream);
+    if (ferror(harvestOutStream)) {
+        PRINT_WARN("Error while writing %s\n", harvestPath);
+        goto failure;
+    }
+    if (fclose(harvestOutStream) != 0) {
+        perror("fclose");
+        harvestOutStream = nullptr;
+        goto failure;
+    }
 
     PRINT_LOG("Written harvest %s\n", harvestPath);
 
-- 
2.43.0


From 470d7a9de660486ea1736ee1e8931e5fb974ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 41/66] fix: report errors while writing JSON and do not keep
 the incomplete file

---
 src/crawler/harvests2json.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 4abc008..36cf44a 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -271,6 +271,7 @@ int main(int argc, char* argv[]) {
                 if (fd < 0) {
                     PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
                     fclose(output);
+                    unlink(outputName.c_str());
                     return -1;
                 }
 
@@ -289,8 +290,14 @@ int main(int argc, char* argv[]) {
                 }
 
                 close(fd);
-                fclose(output);
-                if (status != 0) return status;
+                if (ferror(output)) status = -1;
+                if (fclose(output) != 0) status = -1;
+                if (status != 0) {
+                    // otherwise it would be taken for already converted
+                    PRINT_WARN("Could not write %s\n", outputName.c_str());
+                    unlink(outputName.c_str());
+                    return status;
+                }
                 PRINT_LOG("Processed %s\n", path.c_str());
             } else {
                 PRINT_LOG("Skipping \"%s\": bad extension\n", path.c_str());
-- 
2.43.0


From 953825b91b3f41ca4b01ea3fad6d0ec01ad94907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 42/66] fix: encode variables and ranges as leaves and bound
 their ids

---
 src/mws/index/ExpressionEncoder.cpp | 31 ++++++++++++++++++++++-------
 src/mws/index/encoded_token.h       |  4 ++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..95b0b57 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -79,13 +79,19 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
+                if (anonVarId >= ENC_TOK_KIND_SIZE) {
+                    return -1;
+                }
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                MeaningId namedVarId = namedVarDictionary.put(qvarName);
+                if (namedVarId >= ENC_TOK_KIND_SIZE) {
+                    return -1;
+                }
+                encoded_token.id = _getNamedVarOffset() + namedVarId;
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -93,7 +99,10 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            if (anonRangeId >= ENC_TOK_KIND_SIZE) {
+                return -1;
+            }
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -107,17 +116,25 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 return -1;
             }
             encoded_token.arity = token->getArity();
+            MeaningId constantId;
             if (config.renameCi && token->getTag() == "ci") {
-                encoded_token.id = _getCiMeaning((token));
+                constantId = _getCiMeaning((token));
             } else {
-                encoded_token.id = _getConstantEncoding(token->getMeaning());
+                constantId = _getConstantEncoding(token->getMeaning());
             }
-            if (encoded_token.id == MeaningDictionary::KEY_NOT_FOUND) {
+            if (constantId > ENC_TOK_MAX_ID) {
+                return -1;
+            }
+            encoded_token.id = constantId;
+            if (constantId == MeaningDictionary::KEY_NOT_FOUND) {
                 rv = -1;
             }
         }
         encodedFormula->push_back(encoded_token);
 
+        // Variables and ranges are leaves, whatever they contain
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..3ada084 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -44,6 +44,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 /* We are using 8 bits to hold the arity. A cerror might have a higher arity */
 #define ENC_TOK_MAX_ARITY 255
+/* We are using 24 bits to hold the id */
+#define ENC_TOK_MAX_ID 0xFFFFFF
+/* Number of ids of each kind of variables and of ranges */
+#define ENC_TOK_KIND_SIZE 32
 
 #define HVAR_ID_MIN 1
 #define HVAR_ID_MAX 32
-- 
2.43.0


From 72532eb923e601e978cabcc3e7b626794a7535c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 43/66] fix: keep the variables of queries and of indexed
 formulae apart

---
 src/mws/index/ExpressionEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 95b0b57..bb55a91 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -191,9 +191,9 @@ QueryEncoder::QueryEncoder(MeaningDictionary* dictionary)
 
 QueryEncoder::~QueryEncoder() {}
 
-MeaningId QueryEncoder::_getAnonVarOffset() const { return ANON_HVAR_ID_MIN; }
+MeaningId QueryEncoder::_getAnonVarOffset() const { return ANON_QVAR_ID_MIN; }
 
-MeaningId QueryEncoder::_getNamedVarOffset() const { return HVAR_ID_MIN; }
+MeaningId QueryEncoder::_getNamedVarOffset() const { return QVAR_ID_MIN; }
 
 MeaningId QueryEncoder::_getRangeOffset() const { return RANGE_ID_MIN; }
 
-- 
2.43.0


From 8cba9ca658433cea9dd81d97d45ff6d76676bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 44/66] fix: number anonymous variables of formulae from 0 when
 decoding them

---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index bb55a91..9c5d9aa 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -220,7 +220,7 @@ Meaning ExpressionDecoder::getMeaning(MeaningId meaningId) const {
     } else if (meaningId >= QVAR_ID_MIN) {
         return "qvar#" + to_string(meaningId - QVAR_ID_MIN);
     } else if (meaningId >= ANON_HVAR_ID_MIN) {
-        return "anonymous_hvar#" + to_string(meaningId - ANON_QVAR_ID_MIN);
+        return "anonymous_hvar#" + to_string(meaningId - ANON_HVAR_ID_MIN);
     } else if (meaningId >= HVAR_ID_MIN) {
         return "hvar#" + to_string(meaningId - HVAR_ID_MIN);
     } else {
-- 
2.43.0


From fc72948315d9885e37ce48646ece138f5f99c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:00 +0000
Subject: [PATCH 45/66] fix: count the last anonymous variable of each kind as
 anonymous

---
 src/mws/index/encoded_token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index 3ada084..2ea6d00 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -121,8 +121,8 @@ static inline bool encoded_token_is_range(encoded_token_t token) {
 }
 
 static inline bool encoded_token_is_anon_var(encoded_token_t token) {
-    return (ANON_HVAR_ID_MIN <= token.id && token.id < ANON_HVAR_ID_MAX) ||
-           (ANON_QVAR_ID_MIN <= token.id && token.id < ANON_QVAR_ID_MAX);
+    return (ANON_HVAR_ID_MIN <= token.id && token.id <= ANON_HVAR_ID_MAX) ||
+           (ANON_QVAR_ID_MIN <= token.id && token.id <= ANON_QVAR_ID_MAX);
 }
 
 END_DECLS
-- 
2.43.0


From 8a91f17d3abac4f002a32bb1bcf0a1d14dcf2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 46/66] fix: skip the rest of a harvest after an XML error
 instead of aborting

---
 src/mws/xmlparser/processMwsHarvest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 64359f9..775796b 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -198,6 +198,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             const xmlChar** attrs) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // after an error the elements do not match the state anymore
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         if (strcmp(reinterpret_cast<const char*>(name), MWSHARVEST_MAIN_NAME) ==
@@ -339,6 +342,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
 static void my_endElement(void* user_data, const xmlChar* name) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // after an error the elements do not match the state anymore
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         PRINT_WARN("Unexpected Default State for end element \"%s\"",
@@ -410,6 +416,8 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    if (data->errorDetected) return;
+
     if (data->state == MWSHARVESTSTATE_IN_MWS_EXPR &&  // Valid state
         data->currentToken != nullptr) {               // Valid token
         data->currentToken->appendTextContent((char*)ch, len);
-- 
2.43.0


From 49f4577994f9c2a621b38bcf4886e7c55a9cc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 47/66] fix: free the copy of a data element that a harvest
 leaves open or that cannot be started

---
 src/mws/xmlparser/processMwsHarvest.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 775796b..ff68144 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -125,7 +125,16 @@ struct MwsHarvest_SaxUserData {
           errorDetected(false),
           parsedExpr(0),
           warnings(0),
+          harvestProcessor(nullptr),
+          shouldProcessData(false),
+          stringWriter(nullptr),
+          copyDepth(0),
           exprUri("") {}
+
+    ~MwsHarvest_SaxUserData() {
+        // still open if the document ends within a data element
+        if (stringWriter != nullptr) xmlFreeTextWriter(stringWriter);
+    }
 };
 
 /**
@@ -161,6 +170,7 @@ static inline void tearDownCopyToStringWriter(MwsHarvest_SaxUserData* data) {
     xmlTextWriterEndDocument(data->stringWriter);
     xmlTextWriterFlush(data->stringWriter);
     xmlFreeTextWriter(data->stringWriter);
+    data->stringWriter = nullptr;
     data->data = string(data->buffer.data(), data->buffer.size());
 }
 
@@ -284,8 +294,12 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 // Going to an unkown state
                 data->state = MWSHARVESTSTATE_UNKNOWN;
                 data->unknownDepth = 1;
+            } else if (setupCopyToStringWriter(data) != 0) {
+                // the element cannot be copied
+                data->prevState = data->state;
+                data->state = MWSHARVESTSTATE_UNKNOWN;
+                data->unknownDepth = 1;
             } else {
-                setupCopyToStringWriter(data);
                 data->state = MWSHARVESTSTATE_IN_MWS_DATA;
                 data->copyDepth = 1;
             }
-- 
2.43.0


From cd9e182dc4255196c7154c18a83351355618acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 48/66] fix: do not answer schema queries with the formatter of
 formula ids

---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..868a9f4 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -201,7 +201,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (!schemaMode &&
+                               strcmp((char*)attrs[1], "mws-ids") == 0) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From d2197442ba7089deeebea5e6c2c09194c4a3e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 49/66] fix: initialize the cutoff mode of schema queries

---
 src/mws/types/Query.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..5b94786 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
-- 
2.43.0


From 293daa02f0ff495c4f16a8c189222df38fe8cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 50/66] fix: free the query when its parser cannot be created

---
 src/mws/xmlparser/readMwsQuery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 868a9f4..2f7a3ae 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -399,6 +399,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     if (ctxtPtr == nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
         xmlUnlockLibrary();
+        delete user_data.result;
         return nullptr;
     }
 
-- 
2.43.0


From 44c67749764f59baf070a7d5001903507805332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 51/66] fix: do not let the last requested hit overflow

---
 src/mws/query/SearchContext.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 4688062..b03458a 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -306,12 +306,11 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
-        if (maxTotal <= offset) {
-            size = 0;
-        } else {
-            size = maxTotal - offset;
-        }
+    // (offset + size may not fit)
+    if (maxTotal <= offset) {
+        size = 0;
+    } else if (size > maxTotal - offset) {
+        size = maxTotal - offset;
     }
 
     // Retrieving the solutions
-- 
2.43.0


From 4fa8984d20226c0e5e80be7589296af909a0e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 52/66] fix: take the representative of a schema from the
 formulae that were encoded

---
 src/mws/daemon/SchemaQueryHandler.cpp | 6 +++---
 src/mws/daemon/SchemaQueryHandler.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..bc3ff4e 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -102,15 +102,15 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-        CmmlToken* exprRoot = query->tokens[representativeId];
+        const CmmlToken* exprRoot = exprsTokens[representativeId];
         getSubstitutions(exprRoot, sch.root, &sch.subst);
     }
 
     return result;
 }
 
-void SchemaQueryHandler::getSubstitutions(CmmlToken* exprRoot,
-                                          CmmlToken* schemaRoot,
+void SchemaQueryHandler::getSubstitutions(const CmmlToken* exprRoot,
+                                          const CmmlToken* schemaRoot,
                                           vector<string>* subst) {
     if (exprRoot == nullptr || schemaRoot == nullptr || subst == nullptr) {
         PRINT_WARN("nullptr pased. Skipping...");
diff --git a/src/mws/daemon/SchemaQueryHandler.hpp b/src/mws/daemon/SchemaQueryHandler.hpp
index 7f33fc6..1412ed7 100644
--- a/src/mws/daemon/SchemaQueryHandler.hpp
+++ b/src/mws/daemon/SchemaQueryHandler.hpp
@@ -49,8 +49,8 @@ class SchemaQueryHandler : public QueryHandler {
     GenericAnswer* handleQuery(types::Query* query);
 
  private:
-    void getSubstitutions(types::CmmlToken* exprRoot,
-                          types::CmmlToken* schemaRoot,
+    void getSubstitutions(const types::CmmlToken* exprRoot,
+                          const types::CmmlToken* schemaRoot,
                           std::vector<std::string>* substitutions);
 
     index::ExpressionEncoder::Config _encodingConfig;
-- 
2.43.0


From e2be0a82cf7e1e55652c48ee3e5c7c79045e76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 53/66] fix: page the hits of the experimental query engine
 over all formulae

The offset and number of results of a query were applied to each matching
formula anew, and the limit of hits to count was ignored.
---
 src/mws/daemon/IndexQueryHandler.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index bfd3f57..88dacdf 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -110,19 +110,35 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
+    // only some of the hits of this formula may belong to the requested page
+    const uint64_t maxTotal = mwsQuery->attrResultTotalReqNr;
+    const uint64_t found = result->total;
+    const uint64_t offset = mwsQuery->attrResultLimitMin;
+    uint64_t size = mwsQuery->attrResultMaxSize;
+    if (maxTotal <= offset) {
+        size = 0;
+    } else if (size > maxTotal - offset) {
+        size = maxTotal - offset;
+    }
     try {
-        if (dbQueryManager->query((FormulaId)leaf->formula_id,
-                                  mwsQuery->attrResultLimitMin,
-                                  mwsQuery->attrResultMaxSize,
-                                  queryCallback) != 0) {
-            return QUERY_ERROR;
+        if (found < offset + size && found + leaf->num_hits > offset) {
+            const uint64_t dbOffset = offset > found ? offset - found : 0;
+            const uint64_t dbMaxSize = offset + size - found - dbOffset;
+            if (dbQueryManager->query((FormulaId)leaf->formula_id, dbOffset,
+                                      dbMaxSize, queryCallback) != 0) {
+                return QUERY_ERROR;
+            }
         }
     } catch (const exception& e) {
         // exceptions must not pass through the (C) query engine
         PRINT_WARN("Error while retrieving hits: %s\n", e.what());
         return QUERY_ERROR;
     }
-    result->total += leaf->num_hits;
+    if (found + leaf->num_hits >= maxTotal) {
+        result->total = maxTotal;
+        return QUERY_STOP;
+    }
+    result->total = found + leaf->num_hits;
 
     return QUERY_CONTINUE;
 }
-- 
2.43.0


From f446cd107d5914d070b1ee55900166302f746ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:08 +0000
Subject: [PATCH 54/66] fix: form values of crawl requests that arrive in
 several pieces are joined

---
 src/crawler/daemon/CrawlerDaemon.cpp | 81 +++++++++++++++-------------
 src/crawler/daemon/CrawlerDaemon.hpp |  2 +
 2 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 75f115c..333727d 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -79,6 +79,31 @@ static int cd_SendPageThroughConnection(struct MHD_Connection* connection,
     return ret;
 }
 
+/**
+ * @brief: adds a piece of a form value to the pieces of it that came before;
+ * a value that gets too long is dropped
+ */
+static int cd_AddPiece(char** value, const char* data, uint64_t off,
+                       size_t size) {
+    if (off == 0) {
+        free(*value);
+        *value = nullptr;
+        if (size == 0) return MHD_YES;
+        *value = (char*)malloc(MAXNAMESIZE);
+        if (*value == nullptr) return MHD_NO;
+    }
+    if (*value == nullptr) return MHD_YES;
+    if (off >= MAXNAMESIZE || size >= MAXNAMESIZE - off) {
+        free(*value);
+        *value = nullptr;
+        return MHD_YES;
+    }
+
+    memcpy(*value + off, data, size);
+    (*value)[off + size] = '\0';
+    return MHD_YES;
+}
+
 /**
  * @brief: method that iterates the key-value pairs of the POST message received
  */
@@ -91,52 +116,30 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
 
     if (0 == strcmp(key, "urlstart")) {
-        free(con_info->urlstart);
-        con_info->urlstart = nullptr;
-        if ((size > 0) && (size < MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        }
-
-        return MHD_YES;
+        return cd_AddPiece(&con_info->urlstart, data, off, size);
     }
     if (0 == strcmp(key, "count")) {
-        free(con_info->count);
-        con_info->count = nullptr;
-        if ((size > 0) && (size < MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        }
-
-        return MHD_YES;
+        return cd_AddPiece(&con_info->count, data, off, size);
     }
     if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size < MAXNAMESIZE) &&
-            (con_info->dontcrawlnr < MAXDONTCRAWLSIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
+        if (off == 0) {
+            con_info->dontcrawlkept =
+                (size > 0) && (con_info->dontcrawlnr < MAXDONTCRAWLSIZE);
+            if (!con_info->dontcrawlkept) return MHD_YES;
+
+            char** value = &con_info->dontcrawl[con_info->dontcrawlnr++];
+            *value = nullptr;
+            return cd_AddPiece(value, data, off, size);
         }
+        if (!con_info->dontcrawlkept) return MHD_YES;
 
-        return MHD_YES;
+        return cd_AddPiece(&con_info->dontcrawl[con_info->dontcrawlnr - 1],
+                           data, off, size);
     }
     return MHD_YES;
 }
@@ -171,9 +174,12 @@ static void cd_RequestCompletedCallback(void* cls,
             qNode.count = atoi(con_info->count);
         else
             qNode.count = -1;
-        qNode.dontcrawlnr = con_info->dontcrawlnr;
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
+        for (int i = 0; i < con_info->dontcrawlnr; ++i) {
+            // (values that were too long are missing)
+            if (con_info->dontcrawl[i] == nullptr) continue;
             qNode.dontcrawl.push_back((string)con_info->dontcrawl[i]);
+            qNode.dontcrawlnr++;
+        }
 
         MHD_destroy_post_processor(con_info->postprocessor);
         if (con_info->urlstart) free(con_info->urlstart);
@@ -218,6 +224,7 @@ static int cd_AccessHandlerCallback(void* cls,
         con_info->count = nullptr;
         con_info->dontcrawlnr = 0;
         con_info->dontcrawl[0] = nullptr;
+        con_info->dontcrawlkept = false;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..965b038 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -60,6 +60,8 @@ struct connection_info_struct
     char *count;
     int dontcrawlnr;
     char *dontcrawl[MAXDONTCRAWLSIZE];
+    /* whether the last value of dontcrawl is among them */
+    bool dontcrawlkept;
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From 6a247049ef167bf233bf762092e2d7f0921ced29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:23 +0000
Subject: [PATCH 55/66] fix: a crawl request that was aborted is not carried
 out

---
 src/crawler/daemon/CrawlerDaemon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 333727d..b3464e9 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -153,7 +153,6 @@ static void cd_RequestCompletedCallback(void* cls,
                                         void** con_cls,
                                         enum MHD_RequestTerminationCode toe) {
     UNUSED(connection);
-    UNUSED(toe);
 
     SharedQueue* sharedQueue = (SharedQueue*)cls;
     QueueNode qNode;
@@ -166,7 +165,9 @@ static void cd_RequestCompletedCallback(void* cls,
     if (nullptr == con_info) return;
 
     if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != nullptr) {
+        // the data of an aborted request may be incomplete
+        if (con_info->urlstart != nullptr &&
+            toe == MHD_REQUEST_TERMINATED_COMPLETED_OK) {
             qNode.urlstart = con_info->urlstart;
             goodRequest = 1;
         }
-- 
2.43.0


From 735cefff65c500e3a5951d974508b90c55807da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:41 +0000
Subject: [PATCH 56/66] fix: formulae found by a crawl are kept until they are
 stored, in files of their own

---
 src/crawler/crawler/MwsCrawler.cpp | 40 +++++++++++++++++++-----------
 src/crawler/crawler/MwsCrawler.hpp | 11 ++++----
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 6c42403..c2da727 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -31,6 +31,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <queue>
 #include <set>
+#include <errno.h>
 #include <unistd.h>
 #include <time.h>
 #include <sstream>
@@ -67,7 +68,6 @@ Crawler::Crawler() {
 Crawler::~Crawler() {
     if (currentMathFormulae.size()) {
         storeMath(currentMathFormulae);
-        currentMathFormulae.clear();
     }
 
     // empty url_queue - not necessary anymore since all links in queue are
@@ -168,7 +168,6 @@ void Crawler::start() {
     }
 
     storeMath(currentMathFormulae);
-    currentMathFormulae.clear();
     cout << "======Crawling complete!======\n";
     cout << "We scanned " << urlsCrawled << " pages!\n";
     cout << "There are " << url_queue.size() << " more in the queue\n";
@@ -207,18 +206,31 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
 /**
  * Implementation of storeMath
  */
-void Crawler::storeMath(const char* xml) {
-    stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
+bool Crawler::storeMath(const string& xml) {
+    FILE* f = nullptr;
     string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
-    if (f == nullptr) {
-        cerr << "Cannot open harvest file: " << fileName << endl;
-        return;
+    // never overwrite a file, e.g. one stored within the same second
+    for (int nr = 0; f == nullptr; nr++) {
+        stringstream strs;
+        strs << data_directory << "/harvest" << time(nullptr);
+        if (nr > 0) strs << "_" << nr;
+        strs << ".xml";
+        fileName = strs.str();
+        f = fopen(fileName.c_str(), "wx");
+        if (f == nullptr && errno != EEXIST) {
+            cerr << "Cannot open harvest file: " << fileName << endl;
+            return false;
+        }
     }
-    fwrite(xml, strlen(xml), sizeof(char), f);
-    fclose(f);
+
+    bool stored = fwrite(xml.data(), sizeof(char), xml.size(), f) == xml.size();
+    if (fclose(f) != 0) stored = false;
+    if (!stored) {
+        cerr << "Cannot write harvest file: " << fileName << endl;
+        unlink(fileName.c_str());
+    }
+
+    return stored;
 }
 
 /**
@@ -236,7 +248,8 @@ void Crawler::storeMath(vector<string>& currentMF) {
     xmlHarvest.append("</mws:harvest>");
 
     cout << "Sending " << currentMF.size() << " formulas to MWSD!" << endl;
-    storeMath(xmlHarvest.c_str());
+    // formulae that could not be stored are kept
+    if (storeMath(xmlHarvest)) currentMF.clear();
 }
 
 /**
@@ -258,7 +271,6 @@ void Crawler::addMath(vector<string> formulae) {
         MathPackLimit)  // if there are enough harvests, send to MWSD
     {
         storeMath(currentMathFormulae);
-        currentMathFormulae.clear();
     }
 }
 
diff --git a/src/crawler/crawler/MwsCrawler.hpp b/src/crawler/crawler/MwsCrawler.hpp
index c811dfe..8e235e6 100644
--- a/src/crawler/crawler/MwsCrawler.hpp
+++ b/src/crawler/crawler/MwsCrawler.hpp
@@ -116,14 +116,15 @@ private:
     int receivedProperties; // boolean that keeps track of the properties received
 
     /**
-     * @brief Send a message to the MWS Daemon and stores it in a Harvest File
-     * @param msg the message to be sent
+     * @brief Stores a message in a new Harvest File
+     * @param msg the message to be stored
+     * @return true if the whole message was stored
      */
-    void storeMath(const char *);
+    bool storeMath(const std::string& msg);
 
     /**
-     * @brief Prepare the dump string and calls storeMath(const char *)
-     * @param currentMF the list of MathML formulas
+     * @brief Prepare the dump string and store it
+     * @param currentMF the list of MathML formulas; cleared if they were stored
      */
     void storeMath(std::vector< std::string > &currentMF);
 
-- 
2.43.0


From 84db4802bfcb0f5e162e3284940a9815d7407800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:42 +0000
Subject: [PATCH 57/66] fix: what a failed download left of a page is dropped

---
 src/crawler/utils/Page.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index f65bdad..f3583c7 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -84,6 +84,7 @@ void Page::downloadContent() {
     }
     string strUrl = getUrl();
     char errorstr[CURL_ERROR_SIZE] = "";
+    header.clear();
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
@@ -97,8 +98,13 @@ void Page::downloadContent() {
     if (curl_easy_perform(curl) == 0) {
         downloadedContent = 1;
         downloadedHeader = 1;
-    } else
+    } else {
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
+        // drop what was received of the page
+        content.clear();
+        header.clear();
+        downloadedHeader = 0;
+    }
 
     curl_easy_cleanup(curl);
 }
@@ -123,8 +129,10 @@ void Page::downloadHeader() {
 
     if (curl_easy_perform(curl) == 0) {
         downloadedHeader = 1;
-    } else
+    } else {
         PRINT_WARN("CURL: Cannot download header of page!\n");
+        header.clear();
+    }
 
     curl_easy_cleanup(curl);
 }
-- 
2.43.0


From 960ce5b49018d08f99548cf0cb875ed2ab74e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:00 +0000
Subject: [PATCH 58/66] fix: limitmin and answsize of a query are read in their
 full width

---
 src/mws/xmlparser/readMwsQuery.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 2f7a3ae..041708e 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -146,7 +146,7 @@ static void my_endDocument(void* user_data) {
   */
 static void my_startElement(void* user_data, const xmlChar* name,
                             const xmlChar** attrs) {
-    int numValue;
+    long numValue;
     BoolType boolValue;
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
 
@@ -161,12 +161,12 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_MAXSIZE) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = strtol((char*)attrs[1], nullptr, 10);
                     data->result->attrResultMaxSize = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_LIMITMIN) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = strtol((char*)attrs[1], nullptr, 10);
                     data->result->attrResultLimitMin = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
@@ -175,7 +175,7 @@ static void my_startElement(void* user_data, const xmlChar* name,
                     data->result->attrResultTotalReq = boolValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = strtol((char*)attrs[1], nullptr, 10);
                     data->result->max_depth = numValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_CUTOFFMODE) ==
                            0) {
-- 
2.43.0


From c437927b4faf1444d14fb23dbe1a49c96977bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:43 +0000
Subject: [PATCH 59/66] fix: try a variable of a query against every child of
 an index node

---
 src/mws/query/engine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..08ef98e 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -304,11 +304,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-- 
2.43.0


From 7fe24fd0a3a5a8981018b2041087be70b3b1aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:43 +0000
Subject: [PATCH 60/66] fix: count the variables of an index node within its
 bounds and layout

---
 src/mws/index/index.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/index.h b/src/mws/index/index.h
index 67ab751..8b5b781 100644
--- a/src/mws/index/index.h
+++ b/src/mws/index/index.h
@@ -244,7 +244,18 @@ static inline memsector_long_off_t inode_long_get_child(
 
 static inline uint32_t inode_get_max_var(const inode_t* inode) {
     uint32_t i = 0;
-    while (inode->data[i].token.id <= VAR_ID_MAX) i++;
+    if (inode->type == LONG_INTERNAL_NODE) {
+        const inode_long_t* inode_long = (const inode_long_t*)inode;
+        while (i < inode_long->size &&
+               encoded_token_is_var(inode_long->data[i].token)) {
+            i++;
+        }
+    } else {
+        assert(inode->type == INTERNAL_NODE);
+        while (i < inode->size && encoded_token_is_var(inode->data[i].token)) {
+            i++;
+        }
+    }
 
     return i;
 }
-- 
2.43.0


From 6637e8b493d8c25e35e9df01dff7f0e6a93d84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:43 +0000
Subject: [PATCH 61/66] fix: offsets of index nodes are not cut to 32 bits

---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..212ffa1 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -98,7 +98,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From dabc5ac14fc6d9f5e3f894c2c2095f67494d1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:41 +0000
Subject: [PATCH 62/66] fix: the query engine does not overrun its buffers

A query of more than MAX_QUERY_STACK_SIZE tokens, a growing instantiation of
a variable and variables with the id VAR_ID_MAX were written beyond the end
of the fixed-size stacks and tables.
---
 src/mws/query/engine.c | 71 ++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 08ef98e..622d3db 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -58,10 +58,15 @@ static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
     return stack->data[stack->size];
 }
 
-static inline void token_stack_push(token_stack_t* RESTRICT stack,
+/**
+ * @return false if the stack is full
+ */
+static inline bool token_stack_push(token_stack_t* RESTRICT stack,
                                     encoded_token_t token) {
+    if (stack->size >= MAX_QUERY_STACK_SIZE) return false;
     stack->data[stack->size] = token;
     stack->size++;
+    return true;
 }
 
 static inline void token_stack_pop_many(token_stack_t* RESTRICT stack,
@@ -82,7 +87,7 @@ typedef struct query_ctxt_s {
     token_stack_t index_stack;
 
     /* var instantiations */
-    var_instantiation_t vars[VAR_ID_MAX];
+    var_instantiation_t vars[VAR_ID_MAX + 1];
     /* var solve stack */
     uint32_t solving_var_id;
 
@@ -122,6 +127,8 @@ int query_engine_run(index_handle_t* RESTRICT index,
                      void* RESTRICT result_cb_handle) {
     query_ctxt_t query_ctxt;
 
+    if (query->size > MAX_QUERY_STACK_SIZE) return QUERY_ERROR;
+
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
     return process_query_token(&query_ctxt);
@@ -139,7 +146,7 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     int i;
 
     // initialize variables table
-    for (i = 0; i < VAR_ID_MAX; i++) {
+    for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
     }
 
@@ -184,7 +191,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             int i;
             int size = var->num_tokens;
             for (i = 0; i < size; ++i) {
-                token_stack_push(query, var->tokens[size - i - 1]);
+                if (!token_stack_push(query, var->tokens[size - i - 1])) {
+                    return QUERY_ERROR;
+                }
             }
 
             // continue
@@ -200,14 +209,18 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             if (ret != QUERY_CONTINUE) return ret;
         }
 
-        token_stack_push(query, query_token);
+        if (!token_stack_push(query, query_token)) {
+            return QUERY_ERROR;
+        }
     } else {  // constant query token
         if (!token_stack_empty(&query_ctxt->index_stack)) {  // index stack
             encoded_token_t index_token =
                 token_stack_pop(&query_ctxt->index_stack);
             if (encoded_token_is_var(index_token)) {  // variable index token
                 // push back query token to stack
-                token_stack_push(query, query_token);
+                if (!token_stack_push(query, query_token)) {
+                    return QUERY_ERROR;
+                }
 
                 int var_id = encoded_token_get_id(index_token);
                 query_ctxt->solving_var_id = var_id;
@@ -221,9 +234,13 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
                     if (ret != QUERY_CONTINUE) return ret;
                 }
                 // revert query stack
-                token_stack_push(query, query_token);
+                if (!token_stack_push(query, query_token)) {
+                    return QUERY_ERROR;
+                }
+            }
+            if (!token_stack_push(&query_ctxt->index_stack, index_token)) {
+                return QUERY_ERROR;
             }
-            token_stack_push(&query_ctxt->index_stack, index_token);
         } else {  // regular index
             const inode_t* curr = query_ctxt->curr_index_inode;
             memsector_long_off_t off;
@@ -248,20 +265,26 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
                 query_ctxt->curr_index_inode = curr;
 
                 // revert query token before hvars processing
-                token_stack_push(query, query_token);
+                if (!token_stack_push(query, query_token)) {
+                    return QUERY_ERROR;
+                }
 
                 // hvars
                 uint32_t hvar_id_max =
                     inode_get_max_var(query_ctxt->curr_index_inode);
                 uint32_t hvar_id;
-                for (hvar_id = 0; hvar_id < hvar_id_max; hvar_id++) {
+                for (hvar_id = 0;
+                     hvar_id < hvar_id_max && hvar_id <= VAR_ID_MAX;
+                     hvar_id++) {
                     query_ctxt->solving_var_id = hvar_id;
                     ret = match_var_to_query(query_ctxt, 1);
                     if (ret != QUERY_CONTINUE) return ret;
                 }
             } else {  // no child node exists
                 // revert query token
-                token_stack_push(query, query_token);
+                if (!token_stack_push(query, query_token)) {
+                    return QUERY_ERROR;
+                }
             }
         }
     }
@@ -313,7 +336,9 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
             var_stack.size = 0;
-            token_stack_push(&var_stack, entry_token);
+            if (!token_stack_push(&var_stack, entry_token)) {
+                return QUERY_ERROR;
+            }
 
             while (!token_stack_empty(&var_stack)) {
                 encoded_token_t token = token_stack_pop(&var_stack);
@@ -339,12 +364,18 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                         // push in reverse order on stack
                         int i;
                         for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens[i]);
+                            if (!token_stack_push(&var_stack,
+                                                  solved_var->tokens[i])) {
+                                return QUERY_ERROR;
+                            }
                         }
                         continue;
                     }
                 }
                 // save to var_instantiation
+                if (var->num_tokens >= MAX_VAR_INSTATIATION_SIZE) {
+                    return QUERY_ERROR;
+                }
                 var->tokens[var->num_tokens] = token;
                 var->num_tokens++;
                 pushed_var_tokens++;
@@ -387,7 +418,9 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
     while (arity > 0) {
         encoded_token_t token = token_stack_pop(stack);
         arity += encoded_token_get_arity(token) - 1;
-        token_stack_push(&tmp_rev_stack, token);
+        if (!token_stack_push(&tmp_rev_stack, token)) {
+            return QUERY_ERROR;
+        }
     }
 
     // copy stack and revert
@@ -424,12 +457,16 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
                 // push in reverse order on stack
                 int i;
                 for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                    token_stack_push(&var_stack, solved_var->tokens[i]);
+                    if (!token_stack_push(&var_stack,
+                                                  solved_var->tokens[i])) {
+                        return QUERY_ERROR;
+                    }
                 }
                 continue;
             }
         }
         // save to var_instantiation
+        if (var->num_tokens >= MAX_VAR_INSTATIATION_SIZE) return QUERY_ERROR;
         var->tokens[var->num_tokens] = token;
         var->num_tokens++;
     }
@@ -444,7 +481,9 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
 revert_stack:
     var->solved = false;
     while (!token_stack_empty(&tmp_rev_stack)) {
-        token_stack_push(stack, token_stack_pop(&tmp_rev_stack));
+        if (!token_stack_push(stack, token_stack_pop(&tmp_rev_stack))) {
+            return QUERY_ERROR;
+        }
     }
 
     return QUERY_CONTINUE;
-- 
2.43.0


From 55fcf8494911a6facd6fc1a774e1eeddc34839f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:03 +0000
Subject: [PATCH 63/66] fix: escape document and formula ids in the URL
 attributes of harvests

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..0988556 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\"" << escapeXml(doc, documentId)
+                       << "#" << escapeXml(doc, id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From a637dd0e01e3121f21e57bcd46ac0b666ea8e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:03 +0000
Subject: [PATCH 64/66] fix: escape the URLs the crawler puts into harvests

A page whose URL contains an ampersand made its whole harvest malformed; math
elements without an id got the id (null).
---
 src/crawler/utils/MwsGetMath.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 7e98d9d..610a450 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -210,6 +210,16 @@ xmlXPathObjectPtr get_XMLNodeset(xmlDocPtr doc, const xmlChar* xpath) {
     return result;
 }
 
+/*
+ * Escapes a text such that it can be used as the value of an attribute
+ */
+static string escape_xml(const string& text) {
+    xmlChar* escaped = xmlEncodeSpecialChars(nullptr, BAD_CAST text.c_str());
+    string result(escaped != nullptr ? (const char*)escaped : "");
+    xmlFree(escaped);
+    return result;
+}
+
 // =============== IMPLEMENTATION ================
 namespace mws {
 
@@ -233,7 +243,7 @@ int isHTML(Page& page) {
  */
 vector<string> get_math_html(Page& page) {
     string html = page.getContent();
-    string url = page.getUrl();
+    string url = escape_xml(page.getUrl());
 
     vector<pair<string, string> > xml = get_math_blocks(html);
     vector<pair<string, string> >::iterator it;
@@ -344,7 +354,11 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            const string ref =
+                id != nullptr ? url + "#" + (const char*)id : url;
+
+            fprintf(stream, "<mws:expr url=\"%s\">\n",
+                    escape_xml(ref).c_str());
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
-- 
2.43.0


From cca0f0ea87dae2fa7c50cce697a2ae09903f01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:03 +0000
Subject: [PATCH 65/66] fix: escape all control characters in JSON strings

---
 src/common/utils/util.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 6c768da..db9bb18 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -78,7 +78,14 @@ std::string escapeJsonString(const std::string& input) {
             case '\n': ss << "\\n"; break;
             case '\r': ss << "\\r"; break;
             case '\t': ss << "\\t"; break;
-            default: ss << *iter; break;
+            default:
+                // other control characters are not allowed in JSON strings
+                if (static_cast<unsigned char>(*iter) < 0x20) {
+                    ss << formattedString("\\u%04x", *iter);
+                } else {
+                    ss << *iter;
+                }
+                break;
         }
     }
     return ss.str();
-- 
2.43.0


From 9a1f8ae610a9673ed5f6ad44f1bdd9014b89b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:03 +0000
Subject: [PATCH 66/66] fix: escape text and attributes when a token is printed
 as XML

---
 src/mws/types/CmmlToken.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..2037357 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,23 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+/**
+ * @brief escapes the characters that have a meaning in XML
+ */
+static string escapeXml(const string& text) {
+    string escaped;
+    for (char c : text) {
+        switch (c) {
+            case '&': escaped += "&amp;"; break;
+            case '<': escaped += "&lt;"; break;
+            case '>': escaped += "&gt;"; break;
+            case '"': escaped += "&quot;"; break;
+            default: escaped += c; break;
+        }
+    }
+    return escaped;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +170,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXml(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXml(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0

