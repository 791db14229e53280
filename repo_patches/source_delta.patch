From 3df8225351c0551ba1e8088b019f4b8a8a462ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/50] fix: Base64::decode read out of bounds on empty and
 truncated input

An empty string indexed dataIn[size-2]; a length that is not a multiple of 4
read and wrote past the end of both strings.
---
 include/wisardpkg.hpp | 4 ++++
 src/common/utils.cc   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..c17a969 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17440,6 +17440,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The base64 data has an invalid size!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..ba0986c 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -110,6 +110,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The base64 data has an invalid size!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
-- 
2.43.0


From 8e3c8ed426989a9f586a61a0c4825449acfa0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 02/50] fix: BinInput accepts data whose padding count makes
 size() wrap around

The padding count was taken from the data unchecked, so size() could exceed
the stored bits and get()/set() went out of bounds.
---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c17a969..52a59df 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17640,6 +17640,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (input.size() == 0 && remain != 0)){
+      throw Exception("The binary input data is invalid!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..f3abfef 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -17,6 +17,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (input.size() == 0 && remain != 0)){
+      throw Exception("The binary input data is invalid!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From c182d4530ae1f5e7467a347cbb5043e84b670a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 03/50] fix: BinInput::set changes neighbouring bits when the
 value is not 0 or 1

---
 include/wisardpkg.hpp | 2 +-
 src/data/bininput.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 52a59df..5683c55 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17664,7 +17664,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value != 0) << sectionIndex);
   }
 
   index_size_t size() const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index f3abfef..d93bea9 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -41,7 +41,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value != 0) << sectionIndex);
   }
 
   index_size_t size() const {
-- 
2.43.0


From 8860eb4d1e59e281af89cbe0285c54d78b553be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 04/50] fix: RAMDataHandle::get adds the addresses and rams it
 is asked for

Reading an absent address or ram inserted it, so data() and compare()
changed after a read.
---
 include/wisardpkg.hpp              | 10 ++++++++--
 src/models/wisard/ramdatahandle.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5683c55..5976cf7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18049,11 +18049,17 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    if(it == ramdata.end()) return 0;
+    ram_t::iterator itram = it->second.find(addr);
+    if(itram == it->second.end()) return 0;
+    return itram->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    if(it == ramdata.end()) return ram_t();
+    return it->second;
   }
 
   void set(int r, int addr, int value){
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..1caee06 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -8,11 +8,17 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    if(it == ramdata.end()) return 0;
+    ram_t::iterator itram = it->second.find(addr);
+    if(itram == it->second.end()) return 0;
+    return itram->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    if(it == ramdata.end()) return ram_t();
+    return it->second;
   }
 
   void set(int r, int addr, int value){
-- 
2.43.0


From 9d79dbea3576a5b112bb7353e32c730cfa0f8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 05/50] fix: a model without training cannot be restored from
 its json

The data of an empty ram is an empty string: substr threw on it, and empty
rams were left out of the joined data.
---
 include/wisardpkg.hpp              | 10 +++++-----
 src/models/wisard/discriminator.cc |  4 ++--
 src/models/wisard/ramdatahandle.cc |  6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5976cf7..71cd242 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18117,7 +18117,7 @@ private:
 
   void setData(std::string inputdata){
     int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if((int)inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18134,11 +18134,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
@@ -18639,7 +18639,7 @@ protected:
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
     int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if((int)data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18689,7 +18689,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..6b0b851 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -223,7 +223,7 @@ protected:
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
     int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if((int)data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -273,7 +273,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 1caee06..dd46daa 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -76,7 +76,7 @@ private:
 
   void setData(std::string inputdata){
     int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if((int)inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -93,11 +93,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
-- 
2.43.0


From 74f89aa15fa70fd7a90896975b217047a3a331db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 06/50] fix: RAM accepts bases whose addresses do not fit in 64
 bits

For a base other than 2 the limit test overflowed and never rejected
anything, so different inputs shared an address.
---
 include/wisardpkg.hpp    | 9 ++++++---
 src/models/wisard/ram.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 71cd242..02f29b6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18396,9 +18396,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize && basein > 1; i++){
+      if(biggest > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..d50ac6e 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -165,9 +165,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize && basein > 1; i++){
+      if(biggest > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From 9109c85b5ed96d29392605053a3450580be1f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 07/50] fix: negative input values are accepted and alias other
 addresses

---
 include/wisardpkg.hpp    | 3 +++
 src/models/wisard/ram.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 02f29b6..f1e9e22 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18409,6 +18409,9 @@ private:
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
   }
 
   void generateRandomAddresses(int entrySize){
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index d50ac6e..20059fd 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -178,6 +178,9 @@ private:
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
   }
 
   void generateRandomAddresses(int entrySize){
-- 
2.43.0


From 7d4ac87bc087babdbb957da9996fb8ee82e0e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/50] fix: the mental image is wrong for addresses of more
 than 31 bits

---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f1e9e22..9917438 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18384,9 +18384,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 20059fd..f433f7d 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From 28547eef09d65a54fcbadf5d38a3a525ce888b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 09/50] fix: a mapping with indexes outside the entry is read
 out of bounds

A mapping was not validated at all, a list of indexes accepted negative
ones, and a restored configuration was trusted.
---
 include/wisardpkg.hpp              | 19 ++++++++++++++++---
 src/models/wisard/discriminator.cc | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 9917438..506f27c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18431,6 +18431,10 @@ public:
     count = config["count"];
     std::string data = config["data"];
     nl::json mapping = config["mapping"];
+    checkBase(config["base"].get<int>());
+    for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+      checkIndexesRange(it->get<std::vector<int>>(), entrySize);
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -18634,6 +18638,9 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    for(unsigned int i=0; i<mapping.size(); i++){
+      checkIndexesRange(mapping[i], entrySize);
+    }
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18767,16 +18774,22 @@ private:
     }
   }
 
+  void checkIndexesRange(const std::vector<int>& indexes, const int entrySize) const{
+    for(unsigned int i=0; i<indexes.size(); i++){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
+        throw Exception("The list of indexes has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
     }
 
+    checkIndexesRange(indexes, entrySize);
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
-        throw Exception("The list of indexes has a index out of range of entry!");
-      }
       if(values.find(indexes[i]) == values.end()){
         values[indexes[i]] = i;
       }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 6b0b851..ca1e542 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -9,6 +9,10 @@ public:
     count = config["count"];
     std::string data = config["data"];
     nl::json mapping = config["mapping"];
+    checkBase(config["base"].get<int>());
+    for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
+      checkIndexesRange(it->get<std::vector<int>>(), entrySize);
+    }
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -212,6 +216,9 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    for(unsigned int i=0; i<mapping.size(); i++){
+      checkIndexesRange(mapping[i], entrySize);
+    }
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -345,16 +352,22 @@ private:
     }
   }
 
+  void checkIndexesRange(const std::vector<int>& indexes, const int entrySize) const{
+    for(unsigned int i=0; i<indexes.size(); i++){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
+        throw Exception("The list of indexes has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
     }
 
+    checkIndexesRange(indexes, entrySize);
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
-        throw Exception("The list of indexes has a index out of range of entry!");
-      }
       if(values.find(indexes[i]) == values.end()){
         values[indexes[i]] = i;
       }
-- 
2.43.0


From b63b6793a8a35430a30fdcff76730ec77a3ccde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/50] fix: a configuration saved by jsonConfig cannot be
 reloaded

It is documented to be, but it has neither count nor data.
---
 include/wisardpkg.hpp              | 10 ++++++++--
 src/models/wisard/discriminator.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 506f27c..3fb3e3c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18428,8 +18428,14 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    nl::json value;
+
+    value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
+
+    value = config["data"];
+    std::string data = value.is_null() ? "" : value.get<std::string>();
+
     nl::json mapping = config["mapping"];
     checkBase(config["base"].get<int>());
     for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index ca1e542..f33ff7e 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -6,8 +6,14 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    nl::json value;
+
+    value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
+
+    value = config["data"];
+    std::string data = value.is_null() ? "" : value.get<std::string>();
+
     nl::json mapping = config["mapping"];
     checkBase(config["base"].get<int>());
     for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-- 
2.43.0


From 1d3152fb4e177dd56063d3258fd2edc8ac5ce4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 11/50] fix: a restored Wisard forgets its mapping

The mapping was left out of the json, so a class first seen after
restoring was addressed at random instead.
---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3fb3e3c..6bffd8b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19019,6 +19019,7 @@ protected:
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
       {"indexes", indexes},
+      {"mapping", mapping},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..01669da 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -208,6 +208,7 @@ protected:
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
       {"indexes", indexes},
+      {"mapping", mapping},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
-- 
2.43.0


From a9edf04ba3b34bcb3dd56c173138a4b217a9b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 12/50] fix: an address size of zero divides by zero when
 training

---
 include/wisardpkg.hpp | 3 +++
 src/common/utils.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6bffd8b..875a0fa 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/common/utils.cc b/src/common/utils.cc
index ba0986c..f10d0a5 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
-- 
2.43.0


From 3d755fb09730a473a2eeb9f95be8df9c39e3609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 13/50] fix: training or classifying an empty list of inputs
 crashes

The first input was read before knowing that there is one.
---
 include/wisardpkg.hpp               | 11 ++++++++---
 src/models/cluswisard/cluswisard.cc |  7 +++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  1 +
 src/wrappers/wisardwrapper.cc       |  1 +
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 875a0fa..de7386c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18888,6 +18888,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18897,9 +18898,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19344,9 +19346,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19356,9 +19359,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -19390,6 +19394,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.size() == 0) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..dfb9acd 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -123,6 +125,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.size() == 0) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 01669da..fc6747e 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..5a9d8ea 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,6 +39,7 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..e94a571 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,6 +91,7 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
-- 
2.43.0


From 7a17a8dc51f22f48e470c76680842f6da30b3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 14/50] fix: ClusWisard cuts class labels that contain ::

Only what follows the last :: is the discriminator number.
---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index de7386c..4bafb88 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19411,7 +19411,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19426,7 +19426,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19494,7 +19494,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index dfb9acd..6b41209 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -142,7 +142,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -157,7 +157,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -225,7 +225,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 5a9d8ea..ed803d6 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -47,7 +47,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -86,7 +86,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 8e894f07390dd6543c34c4630827798bc5f1cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 15/50] fix: semi-supervised training trains the wrong inputs
 as unlabelled

It trained the first inputs, whether labelled or not, instead of the
unlabelled ones, and wrote out of bounds when labels has keys that are
not an index of an input.
---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4bafb88..cc4e4bc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19364,18 +19364,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19387,7 +19380,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 6b41209..3bd5410 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -95,18 +95,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -118,7 +111,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 910eb0e1261b17243bc2606f0d87d1cfb1f1d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 16/50] fix: trainUnsupervised uses an uninitialized cluster or
 drops what it learned

Whether to create the unsupervised cluster was decided by the number of
supervised ones, and it was created without the base.
---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index cc4e4bc..dcae442 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19388,8 +19388,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.size() == 0) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3bd5410..3f59492 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -119,8 +119,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.size() == 0) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 913f43da46736d9727d040aa0d7aa2c5a7a44c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 17/50] fix: getMentalImage of an unknown class adds an
 uninitialized cluster

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index dcae442..6132fa2 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19429,7 +19429,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    std::map<std::string,Cluster>::iterator c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3f59492..c256f52 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -160,7 +160,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    std::map<std::string,Cluster>::iterator c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From 88d9b1c18518a23f9443f7ed3550d03faf27e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 18/50] fix: Synthesizer crashes on a blank mental image, and
 fills negative pixels

---
 include/wisardpkg.hpp              | 5 +++--
 src/synthetic_data/synthesizers.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6132fa2..de2c5fe 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17772,8 +17772,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
@@ -17811,7 +17812,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..fbafe7d 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,8 +8,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
@@ -47,7 +48,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
-- 
2.43.0


From 3bd726a7e27252bf68eedcd4c2300f45e3627f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 19/50] fix: KernelCanvas constructor leaves the dimension
 uninitialized

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index de2c5fe..7a4a485 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17826,7 +17826,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 86a7bdb82796e211d70124b8e82bf47087b2c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 20/50] fix: KernelCanvas reads short points out of bounds
 before checking them

---
 include/wisardpkg.hpp            | 4 +++-
 src/binarization/kernelcanvas.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7a4a485..3fcb456 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17842,6 +17842,9 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++){
+      checkDimension(sequenceData[i].size());
+    }
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17856,7 +17859,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..d442fa4 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,9 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++){
+      checkDimension(sequenceData[i].size());
+    }
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +34,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From 1f61f5520be1605e39fd967eac338e940ba8f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 21/50] fix: KernelCanvas with useDirection writes outside of
 the point buffer

A point has three blocks of amplifyDim values; the direction of the j-th
dimension was stored relative to twice the offset of the block, and the
first block was copied from an offset already moved.
---
 include/wisardpkg.hpp            | 8 ++++----
 src/binarization/kernelcanvas.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3fcb456..da01d50 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17994,7 +17994,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18007,7 +18007,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18017,8 +18017,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index d442fa4..6b5fd41 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -169,7 +169,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -182,7 +182,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -192,8 +192,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
-- 
2.43.0


From 774611bcbf6a3c20cef5379f8e5ea8892604a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 22/50] fix: DataSet::get reads out of bounds

---
 include/wisardpkg.hpp | 2 +-
 src/data/dataset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index da01d50..1dec039 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17735,7 +17735,7 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..4e24a08 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -45,7 +45,7 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
-- 
2.43.0


From 42b3de4f1a4f093e68f3f0b7cb26a11c1249ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 23/50] fix: saving a DataSet over an existing file corrupts it

The records were appended to the old content without a separator.
---
 include/wisardpkg.hpp | 2 +-
 src/data/dataset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1dec039..0f610bb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17749,7 +17749,7 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
       dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 4e24a08..3c7be38 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -59,7 +59,7 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
       dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
-- 
2.43.0


From 1ee825890335c8c17f1eb4ffd4e5409cb4dcb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 24/50] fix: saving a DataSet gives its unlabelled inputs an
 empty label

---
 include/wisardpkg.hpp | 3 ++-
 src/data/dataset.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0f610bb..18039cb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17752,7 +17752,8 @@ public:
     dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      std::unordered_map<int,std::string>::iterator label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 3c7be38..311ce57 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -62,7 +62,8 @@ public:
     dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      std::unordered_map<int,std::string>::iterator label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
-- 
2.43.0


From 533684a598f523303a3bfb7f7f1eb7823e1faabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 25/50] fix: a saved DataSet without inputs cannot be loaded

---
 include/wisardpkg.hpp | 3 ++-
 src/data/dataset.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 18039cb..f54533e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17693,7 +17693,7 @@ public:
   DataSet(){}
   DataSet(std::string filename){
     int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if((int)filename.size() < s || filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -17704,6 +17704,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.size() == 0) break;
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 311ce57..291d55f 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -3,7 +3,7 @@ public:
   DataSet(){}
   DataSet(std::string filename){
     int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if((int)filename.size() < s || filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -14,6 +14,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.size() == 0) break;
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
-- 
2.43.0


From 1f156c02fbe1e24fe7184f4cb87378aad47a120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 26/50] fix: bleaching with confidence above 1 depends on the
 names of the classes

A class close to the best one was only noticed when it came after it.
---
 include/wisardpkg.hpp   | 2 +-
 src/common/bleaching.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f54533e..2a02424 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17546,8 +17546,8 @@ private:
     bool ambiguity = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        ambiguity = i != candidates.begin() && (i->second - biggest) < confidence;
         biggest = i->second;
-        ambiguity = false;
       }
       else if( (biggest - i->second) < confidence ){
         ambiguity = true;
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..c12bde2 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -65,8 +65,8 @@ private:
     bool ambiguity = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        ambiguity = i != candidates.begin() && (i->second - biggest) < confidence;
         biggest = i->second;
-        ambiguity = false;
       }
       else if( (biggest - i->second) < confidence ){
         ambiguity = true;
-- 
2.43.0


From fe1977321baf7c86ad0fe946d07bcf2d1538581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 27/50] fix: the confidence of an input that no ram recognizes
 is not a number

---
 include/wisardpkg.hpp   | 1 +
 src/common/bleaching.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2a02424..6f8dde6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17531,6 +17531,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index c12bde2..c14e87c 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,6 +50,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
-- 
2.43.0


From 4cdb135c691b880659cdd0c9498dc4a3d8dc79b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 28/50] fix: two models saved to files in the same second share
 a data file

The random name repeats because rand() is reseeded with the time, and
the data of the second model was appended to the file of the first.
---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/discriminator.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6f8dde6..2f78185 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18705,6 +18705,9 @@ protected:
     std::string data;
     if(huge){
       std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      while(std::ifstream(filename).good()){
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index f33ff7e..d6fd30e 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -274,6 +274,9 @@ protected:
     std::string data;
     if(huge){
       std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      while(std::ifstream(filename).good()){
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
-- 
2.43.0


From 8288617cd52be4ce01005d710fd2a750b7c20e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 29/50] fix: Discriminator constructor leaves the number of
 trainings uninitialized

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2f78185..7d9cc39 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18433,7 +18433,7 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index d6fd30e..983e08a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,7 +2,7 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-- 
2.43.0


From 2b40570e82ca0b46d1860ed18098d0426421d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 30/50] fix: an input of 2^32 more bits than the entry size is
 accepted

---
 include/wisardpkg.hpp              | 4 ++--
 src/models/wisard/discriminator.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7d9cc39..a8d36df 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18768,8 +18768,8 @@ protected:
 
 private:
 
-  void checkEntrySize(const int entry) const {
-    if(entrySize != entry){
+  void checkEntrySize(const index_size_t entry) const {
+    if(entrySize < 0 || (index_size_t)entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
     }
   }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 983e08a..aa69209 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -337,8 +337,8 @@ protected:
 
 private:
 
-  void checkEntrySize(const int entry) const {
-    if(entrySize != entry){
+  void checkEntrySize(const index_size_t entry) const {
+    if(entrySize < 0 || (index_size_t)entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
     }
   }
-- 
2.43.0


From f20f63dc5fead0e96a43ca312b55693fbfabeb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 31/50] fix: the number of indexes of a completely addressed
 discriminator overflows

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a8d36df..7afc140 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18613,7 +18613,7 @@ protected:
 
     int numberOfRAMS = entrySize / addressSize;
     int remain = entrySize % addressSize;
-    int indexesSize = entrySize;
+    long long indexesSize = entrySize;
     if(completeAddressing && remain > 0) {
       numberOfRAMS++;
       indexesSize += addressSize-remain;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index aa69209..b6d5c80 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -182,7 +182,7 @@ protected:
 
     int numberOfRAMS = entrySize / addressSize;
     int remain = entrySize % addressSize;
-    int indexesSize = entrySize;
+    long long indexesSize = entrySize;
     if(completeAddressing && remain > 0) {
       numberOfRAMS++;
       indexesSize += addressSize-remain;
-- 
2.43.0


From cab5f1e1c954980a782455ab0186d50e5c6cbf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 32/50] fix: DataSet::getLabel: indexes of 2^32 and more were
 taken modulo 2^32

---
 include/wisardpkg.hpp | 3 +++
 src/data/dataset.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7afc140..7caa7f6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17741,6 +17741,9 @@ public:
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()){
+      throw Exception("The index is out of range of the dataset!");
+    }
     return labels.at(index);
   }
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 291d55f..4077458 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -50,6 +50,9 @@ public:
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()){
+      throw Exception("The index is out of range of the dataset!");
+    }
     return labels.at(index);
   }
 
-- 
2.43.0


From acb170a6e7a1c9ee9c89908cae92d3342c1fabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 33/50] fix: KernelCanvas accepts an activation degree that is
 not a number

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7caa7f6..324341b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18042,7 +18042,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 6b5fd41..af577bb 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -211,7 +211,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
-- 
2.43.0


From e77d505bfa44599aa9d5615527601adcb05eb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 34/50] fix: ClusWisard accepts a minScore that is not a number

---
 include/wisardpkg.hpp               | 2 +-
 src/models/cluswisard/cluswisard.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 324341b..7466212 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19540,7 +19540,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index c256f52..e782d90 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -259,7 +259,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
-- 
2.43.0


From bd067d63e213edecadb6d9e9fe12aa5ba2e35c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 35/50] fix: KernelCanvas: the size of a kernel with direction
 overflows

---
 include/wisardpkg.hpp            | 2 ++
 src/binarization/kernelcanvas.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7466212..e1e3c1d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17895,6 +17895,8 @@ protected:
     int currentDim = dim;
     amplifyDim = 0;
     if(useDirection) {
+      if(dim > 238609294)
+        throw Exception("Error: the dimension is too big to use direction!");
       amplifyDim = dim + 2*(dim-1);
       currentDim = amplifyDim * 3;
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index af577bb..6bcfbc9 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -64,6 +64,8 @@ protected:
     int currentDim = dim;
     amplifyDim = 0;
     if(useDirection) {
+      if(dim > 238609294)
+        throw Exception("Error: the dimension is too big to use direction!");
       amplifyDim = dim + 2*(dim-1);
       currentDim = amplifyDim * 3;
     }
-- 
2.43.0


From 84e3f30e61039b9e991d955c88e471f9dbad5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 36/50] fix: KernelCanvas activates more kernels than it has

---
 include/wisardpkg.hpp            | 1 +
 src/binarization/kernelcanvas.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e1e3c1d..a8a1dec 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17891,6 +17891,7 @@ protected:
     std::srand(time(NULL));
 
     numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);
+    if(numberOfKernelsToActivate > numberOfKernels) numberOfKernelsToActivate = numberOfKernels;
     kernels.resize(numberOfKernels);
     int currentDim = dim;
     amplifyDim = 0;
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 6bcfbc9..d785e6f 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -60,6 +60,7 @@ protected:
     std::srand(time(NULL));
 
     numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);
+    if(numberOfKernelsToActivate > numberOfKernels) numberOfKernelsToActivate = numberOfKernels;
     kernels.resize(numberOfKernels);
     int currentDim = dim;
     amplifyDim = 0;
-- 
2.43.0


From 1ba9761c8e95ee7b852fced039fa6fe07f33fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 37/50] fix: a negative RAM index makes RAMDataHandle::data run
 for ever

---
 include/wisardpkg.hpp              | 8 ++++++++
 src/models/wisard/ramdatahandle.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a8a1dec..f94ab1d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18078,6 +18078,7 @@ public:
   }
 
   void set(int r, int addr, int value){
+    checkIndex(r);
     ramdata[r][addr] = value;
   }
 
@@ -18104,6 +18105,7 @@ public:
   }
 
   std::string data(int r){
+    checkIndex(r);
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
     std::string out(ramdata[r].size()*blockSize,0);
     int k=0;
@@ -18130,6 +18132,12 @@ public:
 private:
   std::unordered_map<int,ram_t> ramdata;
 
+  void checkIndex(int r){
+    if(r < 0){
+      throw Exception("The index of a RAM can not be negative!");
+    }
+  }
+
   void setData(std::string inputdata){
     int s = ramdata_sufix.size();
     if((int)inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index dd46daa..2357cd0 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -22,6 +22,7 @@ public:
   }
 
   void set(int r, int addr, int value){
+    checkIndex(r);
     ramdata[r][addr] = value;
   }
 
@@ -48,6 +49,7 @@ public:
   }
 
   std::string data(int r){
+    checkIndex(r);
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
     std::string out(ramdata[r].size()*blockSize,0);
     int k=0;
@@ -74,6 +76,12 @@ public:
 private:
   std::unordered_map<int,ram_t> ramdata;
 
+  void checkIndex(int r){
+    if(r < 0){
+      throw Exception("The index of a RAM can not be negative!");
+    }
+  }
+
   void setData(std::string inputdata){
     int s = ramdata_sufix.size();
     if((int)inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
-- 
2.43.0


From b8f709ba8680b3d29cab650e7799b9adf22dcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 38/50] fix: RAMDataHandle::save appends to what the file held
 before

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/ramdatahandle.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f94ab1d..93a30dc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18120,7 +18120,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2357cd0..b0774c3 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -64,7 +64,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
-- 
2.43.0


From 2eba221fbf9e79d0d069a38d0a60b521792b0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 39/50] fix: KernelCanvas converts its number of active kernels
 only when it fits an int

---
 include/wisardpkg.hpp            | 4 ++--
 src/binarization/kernelcanvas.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 93a30dc..4b8d13b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17890,8 +17890,8 @@ protected:
     checkInputs(numberOfKernels, dim, bitsByKernel, activationDegree);
     std::srand(time(NULL));
 
-    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);
-    if(numberOfKernelsToActivate > numberOfKernels) numberOfKernelsToActivate = numberOfKernels;
+    double kernelsToActivate = round(activationDegree*numberOfKernels);
+    numberOfKernelsToActivate = kernelsToActivate < numberOfKernels ? (int)kernelsToActivate : numberOfKernels;
     kernels.resize(numberOfKernels);
     int currentDim = dim;
     amplifyDim = 0;
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index d785e6f..2511311 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -59,8 +59,8 @@ protected:
     checkInputs(numberOfKernels, dim, bitsByKernel, activationDegree);
     std::srand(time(NULL));
 
-    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);
-    if(numberOfKernelsToActivate > numberOfKernels) numberOfKernelsToActivate = numberOfKernels;
+    double kernelsToActivate = round(activationDegree*numberOfKernels);
+    numberOfKernelsToActivate = kernelsToActivate < numberOfKernels ? (int)kernelsToActivate : numberOfKernels;
     kernels.resize(numberOfKernels);
     int currentDim = dim;
     amplifyDim = 0;
-- 
2.43.0


From ccfdb88d1152f000fc6373ba77a4f8d3acab114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 40/50] fix: a discriminator without RAMs can not be restored
 from its json

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4b8d13b..cd128c7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18460,7 +18460,7 @@ public:
     std::string data = value.is_null() ? "" : value.get<std::string>();
 
     nl::json mapping = config["mapping"];
-    checkBase(config["base"].get<int>());
+    if(!mapping.empty()) checkBase(config["base"].get<int>());
     for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
       checkIndexesRange(it->get<std::vector<int>>(), entrySize);
     }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index b6d5c80..55eb5f0 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -15,7 +15,7 @@ public:
     std::string data = value.is_null() ? "" : value.get<std::string>();
 
     nl::json mapping = config["mapping"];
-    checkBase(config["base"].get<int>());
+    if(!mapping.empty()) checkBase(config["base"].get<int>());
     for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
       checkIndexesRange(it->get<std::vector<int>>(), entrySize);
     }
-- 
2.43.0


From beea0f24f7c2d48f2053905e60976305c2981646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 41/50] fix: json(true) loses the contents silently when the
 file can not be created

---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/discriminator.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index cd128c7..f90f365 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18724,6 +18724,9 @@ protected:
       }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
+      if(!dataFile.is_open()){
+        throw Exception("The file of the RAMs data can not be created!");
+      }
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 55eb5f0..f9b1364 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -279,6 +279,9 @@ protected:
       }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
+      if(!dataFile.is_open()){
+        throw Exception("The file of the RAMs data can not be created!");
+      }
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
-- 
2.43.0


From 54fe974aeb04db9016126f2158656cfbb591418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 42/50] fix: json(true) of a class whose name has a null
 character never ends the second time

---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/discriminator.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f90f365..8988c39 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18718,6 +18718,9 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
+      if(prefix.find('\0') != std::string::npos){
+        throw Exception("The path of the RAMs data can not contain the null character!");
+      }
       std::string filename = prefix + getRandomString(10) + ramdata_sufix;
       while(std::ifstream(filename).good()){
         filename = prefix + getRandomString(10) + ramdata_sufix;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index f9b1364..eb89369 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -273,6 +273,9 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
+      if(prefix.find('\0') != std::string::npos){
+        throw Exception("The path of the RAMs data can not contain the null character!");
+      }
       std::string filename = prefix + getRandomString(10) + ramdata_sufix;
       while(std::ifstream(filename).good()){
         filename = prefix + getRandomString(10) + ramdata_sufix;
-- 
2.43.0


From b75d7afab1ce17990ae40d96f53c4a28083d8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 43/50] fix: ClusWisard accepts a json configuration with
 values its constructor rejects

---
 include/wisardpkg.hpp               | 1 +
 src/models/cluswisard/cluswisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8988c39..ccbaa77 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19346,6 +19346,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index e782d90..c27e0a1 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -48,6 +48,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
-- 
2.43.0


From e6581b28bd363b864d9e12109970e6de4d134d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 44/50] fix: a class of a ClusWisard whose first input was too
 small rejects every input afterwards

---
 src/models/cluswisard/cluswisard.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index c27e0a1..0bfcbe6 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -212,7 +212,8 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
+    auto c = clusters.find(label);
+    if(c == clusters.end() || c->second.getSize() == 0){
       makeClusters(label, image.size());
     }
     clusters[label].train(image);
-- 
2.43.0


From 95f58431fb88353b6f8bb449342f0056022a04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 45/50] fix: RAM(addressSize, 0) divides by zero and RAM()
 reads uninitialized settings

---
 src/models/wisard/ram.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index f433f7d..2d6acc3 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -1,7 +1,7 @@
 
 class RAM{
 public:
-  RAM(){}
+  RAM(): ignoreZero(false), base(2){}
   RAM(nl::json c){
     ignoreZero = c["ignoreZero"];
     base=c["base"];
@@ -184,6 +184,9 @@ private:
   }
 
   void generateRandomAddresses(int entrySize){
+    if(entrySize < 1){
+      throw Exception("The entry size cann't be lesser than 1!");
+    }
     for(unsigned int i=0; i<addresses.size(); i++){
       addresses[i] = randint(0, entrySize-1);
     }
-- 
2.43.0


From ce5be65d00754f648557ac81b9748e0394193bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 46/50] fix: a default Cluster reads uninitialized settings

---
 src/models/cluswisard/cluster.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..a88874d 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -1,7 +1,7 @@
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): Cluster(0, 0, 0, 1, 1){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
-- 
2.43.0


From a94ed4073a1f16eb6b56c1e578436dd62336e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 47/50] fix: the single header follows the sources

---
 include/wisardpkg.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ccbaa77..41ac2e7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18255,7 +18255,7 @@ private:
 
 class RAM{
 public:
-  RAM(){}
+  RAM(): ignoreZero(false), base(2){}
   RAM(nl::json c){
     ignoreZero = c["ignoreZero"];
     base=c["base"];
@@ -18438,6 +18438,9 @@ private:
   }
 
   void generateRandomAddresses(int entrySize){
+    if(entrySize < 1){
+      throw Exception("The entry size cann't be lesser than 1!");
+    }
     for(unsigned int i=0; i<addresses.size(); i++){
       addresses[i] = randint(0, entrySize-1);
     }
@@ -19112,7 +19115,7 @@ protected:
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): Cluster(0, 0, 0, 1, 1){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
@@ -19510,7 +19513,8 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
+    auto c = clusters.find(label);
+    if(c == clusters.end() || c->second.getSize() == 0){
       makeClusters(label, image.size());
     }
     clusters[label].train(image);
-- 
2.43.0


From 70e3fb315693c26eac49b17646bb473cf244c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 48/50] fix: a RAM reads out of bounds when the input is
 smaller than its mapping

---
 include/wisardpkg.hpp    | 3 +++
 src/models/wisard/ram.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 41ac2e7..65c2d62 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18366,6 +18366,9 @@ protected:
     addr_t index = 0;
     addr_t p = 1;
     for(unsigned int i=0; i<addresses.size(); i++){
+      if(addresses[i] < 0 || (index_size_t)addresses[i] >= image.size()){
+        throw Exception("The input data has not the position that is mapped!");
+      }
       int bin = image[addresses[i]];
       checkPos(bin);
       index += bin*p;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 2d6acc3..f29f04c 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -112,6 +112,9 @@ protected:
     addr_t index = 0;
     addr_t p = 1;
     for(unsigned int i=0; i<addresses.size(); i++){
+      if(addresses[i] < 0 || (index_size_t)addresses[i] >= image.size()){
+        throw Exception("The input data has not the position that is mapped!");
+      }
       int bin = image[addresses[i]];
       checkPos(bin);
       index += bin*p;
-- 
2.43.0


From 3a11fd191d7b9da0cb736b9838cac0967bef6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 49/50] fix: a RAM of base 0 or 1 divides by zero or shares one
 address

---
 include/wisardpkg.hpp    | 5 ++++-
 src/models/wisard/ram.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 65c2d62..1296983 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18421,9 +18421,12 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
     addr_t biggest = 0;
-    for(int i=0; i<addressSize && basein > 1; i++){
+    for(int i=0; i<addressSize; i++){
       if(biggest > (limit-(basein-1))/basein){
         throw Exception("The base power to addressSize passed the limit of 2^64!");
       }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index f29f04c..2309a1f 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -167,9 +167,12 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
     addr_t biggest = 0;
-    for(int i=0; i<addressSize && basein > 1; i++){
+    for(int i=0; i<addressSize; i++){
       if(biggest > (limit-(basein-1))/basein){
         throw Exception("The base power to addressSize passed the limit of 2^64!");
       }
-- 
2.43.0


From 642236d4fe4be9d437dd577b2aa27e87b766f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 50/50] fix: reading RAM contents ends when the file can not be
 read

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/ramdatahandle.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1296983..5b24b95 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18145,7 +18145,7 @@ private:
       dataFile.open(inputdata);
       if(dataFile.is_open()){
         while(true){
-          if(dataFile.eof()) break;
+          if(!dataFile.good()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index b0774c3..bbc0f8a 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -89,7 +89,7 @@ private:
       dataFile.open(inputdata);
       if(dataFile.is_open()){
         while(true){
-          if(dataFile.eof()) break;
+          if(!dataFile.good()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
-- 
2.43.0

