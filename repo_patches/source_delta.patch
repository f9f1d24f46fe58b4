From 2d85484fc17910ee3d18e4be8dcb8be17325af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 01/41] fix: check every length announced by the decoded buffer

The decoders trusted lengths found in the buffer: the value length could
overflow the check against the buffer, an array could announce more elements
than fit, a datum could be shorter than its own name, and a request ignored
malformed arguments and read past its announced length. Decoding now succeeds
only for complete well-formed encodings.
---
 Datum.cpp           |  8 ++++----
 Request.cpp         | 11 ++++++-----
 Value.cpp           | 12 ++++++++----
 values/ValueArr.cpp |  8 +++++++-
 values/ValueStr.cpp |  8 +++-----
 5 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..db6374c 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the metadata, the name and the type of the value don't fit
+    if (total_length < 6u + name_length + 1u) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
@@ -78,8 +78,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
         total_length - 6 - name_length // length of value
     );
 
-    // failed to deserialize
-    if (res == 0) {
+    // failed to deserialize or there is something after the value
+    if (res != total_length - 6 - name_length) {
         delete new_value;
         return 0;
     }
diff --git a/Request.cpp b/Request.cpp
index dcc27ec..8ac39c7 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -99,11 +99,11 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
     // BO
     des_total_length = le32toh(des_total_length);
     des_id = le32toh(des_id);
-    des_name_length = le32toh(des_name_length);
+    des_name_length = le16toh(des_name_length);
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (des_total_length < 10u + des_name_length) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,12 +115,13 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
+        // malformed datum, so the request is malformed too
         if (!temp_res) {
             delete new_datum;
-            break;
+            return 0;
         }
         i += temp_res;
         arguments.push_back(new_datum);
diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..406989c 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -17,17 +17,21 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
     // check for basic errors
     if (!data) return 0;
     if (length < 5) return 0;
-    if (data[0] != GetType()) return 0;
+    if (static_cast<uint8_t>(data[0]) != GetType()) return 0;
     
     // trying to get length
     uint32_t len = 
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
+    // only undefined values may be empty
+    if (!len && GetType() != ValueTypeUndefined) return 0;
 
-    // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    // calling the derived deserializer, it must use the whole content
+    if (DeserializeInternal(data + 5, len) != len) return 0;
+
+    return len + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..7144df7 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // can't even read the elements amount
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..0b8e836 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -27,14 +27,12 @@ uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(str_length)) return 0;
 
     // read the length
-    str_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
+    uint32_t new_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
     // check if wrong length
-    if (length != str_length + 4) {
-        DeleteBuffer();
-        return 0;
-    }
+    if (length - 4 != new_length) return 0;
 
+    str_length = new_length;
     if (str_length) {
         // create the buffer
         str_data = new char[str_length];
-- 
2.43.0


From c3481900b9d51379f70f48cbbf5c0b1d52295751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 02/41] fix: copy the length of undefined values and release
 their old data

CopyFrom() copied as many bytes as the old value had and kept the old length,
and deserializing twice leaked the first data.
---
 values/ValueUndefined.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..eb221a3 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // delete the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
@@ -35,10 +40,17 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 }
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
-    if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
-    memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
+    // nothing to do when copying onto itself
+    if (original == this) return;
+
+    ValueUndefined* original_undefined = static_cast<ValueUndefined*>(original);
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = original_undefined->undefined_data_length;
+    if (undefined_data_length) {
+        undefined_data = malloc(undefined_data_length);
+        memcpy(undefined_data, original_undefined->undefined_data, undefined_data_length);
+    }
 }
 
 DowowNetwork::ValueUndefined::~ValueUndefined() {
-- 
2.43.0


From 185e9dc4814e037095fee69facf8d544c0882f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 03/41] fix: make copies exact when the target is not empty or
 is the original

Copying onto a request kept its other arguments and merged arguments of equal
name; copying a value onto itself or an element into its own container used
the value after deleting it.
---
 Datum.cpp           |  8 ++++++--
 Request.cpp         | 16 +++++++++++++---
 values/ValueArr.cpp | 22 +++++++++++++++-------
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db6374c..fc0fb3f 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,9 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the value may be (a part of) the old one,
+    // so the old value is deleted last
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +50,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    if (old_value != this->value) delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
diff --git a/Request.cpp b/Request.cpp
index 8ac39c7..34e7560 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -137,12 +137,22 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    // nothing to do when copying onto itself
+    if (original == this) return;
+
     SetName(original->GetName());
     SetId(original->GetId());
-    const auto& original_args = original->GetArguments();
+
+    // delete old datums
+    for (auto i : arguments) delete i;
+    arguments.clear();
+
     // copy the arguments
-    for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+    for (const auto& d : original->GetArguments()) {
+        Datum* copy = new Datum();
+        copy->SetName(d->GetName());
+        copy->SetValue(d->GetValue());
+        arguments.push_back(copy);
     }
 }
 
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 7144df7..f7ca0b2 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -107,11 +107,13 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // val may be (a part of) the old value
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -145,9 +147,15 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    // nothing to do when copying onto itself
+    if (original == this) return;
+
+    // the original may be a part of this array,
+    // so the old elements are deleted last
+    ValueArr copy;
+    for (auto i : original->array)
+        copy.Push(i);
+    array.swap(copy.array);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From f3c44b480545d883edafac4f160899a7d98d851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 04/41] fix: copy requests, datums and values deeply when
 passed by value

The implicit copies shared the buffers of the original, so that
Request::Emplace() with an existing string or array released them twice.
---
 Datum.cpp                 | 10 ++++++++++
 Datum.hpp                 |  4 ++++
 Request.cpp               |  9 +++++++++
 Request.hpp               |  5 +++++
 values/ValueArr.cpp       |  5 +++++
 values/ValueArr.hpp       |  1 +
 values/ValueStr.cpp       |  4 ++++
 values/ValueStr.hpp       |  1 +
 values/ValueUndefined.cpp |  4 ++++
 values/ValueUndefined.hpp |  1 +
 10 files changed, 44 insertions(+)

diff --git a/Datum.cpp b/Datum.cpp
index fc0fb3f..b76d1e9 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -8,6 +8,16 @@ DowowNetwork::Datum::Datum() {
     this->value = new ValueUndefined();
 }
 
+DowowNetwork::Datum::Datum(const Datum& original) : Datum() {
+    *this = original;
+}
+
+DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& original) {
+    name = original.name;
+    SetValue(original.value);
+    return *this;
+}
+
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
diff --git a/Datum.hpp b/Datum.hpp
index 555a926..11c4aea 100644
--- a/Datum.hpp
+++ b/Datum.hpp
@@ -21,6 +21,10 @@ namespace DowowNetwork {
     public:
         /// Create a new empty datum.
         Datum();
+        //! Makes a deep copy.
+        Datum(const Datum& original);
+        //! Makes a deep copy.
+        Datum& operator=(const Datum& original);
 
         /// Check if the Datum is a valid one.
         /*!
diff --git a/Request.cpp b/Request.cpp
index 34e7560..9ea9a60 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -9,6 +9,15 @@ DowowNetwork::Request::Request(std::string name) : name(name) {
 
 }
 
+DowowNetwork::Request::Request(const Request& original) {
+    CopyFrom(&original);
+}
+
+DowowNetwork::Request& DowowNetwork::Request::operator=(const Request& original) {
+    CopyFrom(&original);
+    return *this;
+}
+
 void DowowNetwork::Request::SetName(std::string name) {
     this->name = name;
 }
diff --git a/Request.hpp b/Request.hpp
index 9a0a394..fce75d4 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -31,6 +31,11 @@ namespace DowowNetwork {
         */
         explicit Request(std::string name = "");
 
+        //! Makes a deep copy.
+        Request(const Request& original);
+        //! Makes a deep copy.
+        Request& operator=(const Request& original);
+
         /// Set the name of the Request.
         /*!
             \param name the name to be set
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index f7ca0b2..050e6be 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -7,6 +7,11 @@ DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
 
+DowowNetwork::ValueArr::ValueArr(const ValueArr& original) : ValueArr() {
+    for (auto i : original.array)
+        Push(i);
+}
+
 uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     Clear();
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..27893be 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -18,6 +18,7 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueArr();
+        ValueArr(const ValueArr& original);
 
         // get element #index.
         // Returns 0 if oob.
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index 0b8e836..2a9f825 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -19,6 +19,10 @@ DowowNetwork::ValueStr::ValueStr(const char *str) : ValueStr(std::string(str)) {
     
 }
 
+DowowNetwork::ValueStr::ValueStr(const ValueStr& original) : ValueStr(original.Get()) {
+
+}
+
 uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     DeleteBuffer();
diff --git a/values/ValueStr.hpp b/values/ValueStr.hpp
index f50ab9c..704c688 100644
--- a/values/ValueStr.hpp
+++ b/values/ValueStr.hpp
@@ -22,6 +22,7 @@ namespace DowowNetwork {
     public:
         ValueStr(std::string str = "");
         ValueStr(const char* str);
+        ValueStr(const ValueStr& original);
 
         // getters and setters
         std::string Get() const;
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index eb221a3..604b894 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
     
 }
 
+DowowNetwork::ValueUndefined::ValueUndefined(const ValueUndefined& original) : ValueUndefined() {
+    CopyFrom(const_cast<ValueUndefined*>(&original));
+}
+
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
     // delete the old data
     free(undefined_data);
diff --git a/values/ValueUndefined.hpp b/values/ValueUndefined.hpp
index 1051ddc..6d87d8b 100644
--- a/values/ValueUndefined.hpp
+++ b/values/ValueUndefined.hpp
@@ -15,6 +15,7 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueUndefined();
+        ValueUndefined(const ValueUndefined& original);
 
         void CopyFrom(Value* original);
 
-- 
2.43.0


From 6038610759462eb4d84c9e3b1d1cc4f6756ae3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 05/41] fix: delete the argument when it is set to a null value

As documented in Request.hpp; an undefined value was stored instead.
---
 Request.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index 9ea9a60..98ecdf7 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -35,7 +35,15 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
-    if (Get(name)) {
+    if (!value) {
+        // delete the argument
+        arguments.remove_if(
+            [&name](Datum* dat) {
+                if (dat->GetName() != name) return false;
+                delete dat;
+                return true;
+            });
+    } else if (Get(name)) {
         // argument is already set
         auto temp_iter = 
             std::find_if(
-- 
2.43.0


From e4712a31f82ee32efa0c94ada06e333d0d6ff0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 06/41] fix: check the name of the datum in Datum::GetValid()
 as documented

---
 Datum.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index b76d1e9..c3a6e25 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -21,8 +21,17 @@ DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& original) {
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
-    //    2. its name isn't empty
-    return !name.empty() && value;
+    //    2. its name has from 1 to 32 characters
+    //    3. its name consists only of ASCII letters, digits,
+    //       underscores and hyphens
+    return
+        value &&
+        !name.empty() &&
+        name.size() <= 32 &&
+        name.find_first_not_of(
+            "abcdefghijklmnopqrstuvwxyz"
+            "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+            "0123456789_-") == std::string::npos;
 }
 
 std::string DowowNetwork::Datum::GetName() const {
-- 
2.43.0


From 808893ab6c51023048bcaa5adfb19d149d1db940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 07/41] fix: continue a partly received request length where it
 stopped

---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From 15886df602b73289b773051089ae28a10e2a3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 08/41] fix: close the connection when a request length below
 the header size is announced

---
 Connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..063ca09 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -258,8 +258,10 @@ bool DowowNetwork::Connection::Receive() {
                 // get the buffer length
                 recv_buffer_length = le32toh(recv_buffer_length);
 
-                // check if too big
-                if (recv_buffer_length > recv_buffer_max_length) {
+                // check if too big or too small to be a request
+                if (recv_buffer_length > recv_buffer_max_length ||
+                    recv_buffer_length < 10)
+                {
                     // the connection is broken
                     return false;
                 }
-- 
2.43.0


From 5b2ffb1df4bc46d5538a776b6d6573dd8a6127e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 09/41] fix: let clients use the odd request ids, accepted
 connections use the even ones

---
 Client.cpp     | 6 ------
 Connection.cpp | 5 ++++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..b12e586 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -64,9 +64,6 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // unset temp socket fd
     c->temp_socket_fd = -1;
 
-    // setup the request id part
-    c->SetEvenRequestIdsPart(true);
-
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
 }
@@ -103,9 +100,6 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->InitializeByFD(c->temp_socket_fd);
     c->temp_socket_fd = -1;
 
-    // request part setup
-    c->SetEvenRequestIdsPart(true);
-
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
 }
diff --git a/Connection.cpp b/Connection.cpp
index 063ca09..7fb69f0 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -481,7 +481,9 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     is_disconnecting = false;
 
     // reset IDs
+    mutex_fri.lock();
     free_request_id = is_even_request_parts ? 2 : 1;
+    mutex_fri.unlock();
 
     // cleanup receive queue
     mutex_rq.lock();
@@ -514,8 +516,9 @@ void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
 }
 
 DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
-    InitializeByFD(socket_fd);
+    // before the thread is started: it may push
     SetEvenRequestIdsPart(true);
+    InitializeByFD(socket_fd);
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
-- 
2.43.0


From 45ab915bed834447e0fe512e3c2d0254c5def009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 10/41] fix: do not block on, or close because of, a keep-alive
 timer that was restarted meanwhile

---
 Connection.cpp | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 7fb69f0..a34d395 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -101,24 +101,28 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // our still-alive event
         // *********************
         if (pollfds[2].revents & POLLIN) {
-            Request *keep_alive = new Request("_");
-            c->Push(keep_alive, false, 0, false);
-
-            // read the value (or else the timer will break)
+            // read the value (or else the timer will break),
+            // nothing to do if something has just been sent
             uint64_t void_buf;
-            read(pollfds[2].fd, &void_buf, sizeof(void_buf));
-
-            // update the timeout
-            Utils::SetTimerFdTimeout(
-                c->our_sa_timer,
-                c->our_sa_interval);
+            if (read(pollfds[2].fd, &void_buf, sizeof(void_buf)) > 0) {
+                Request *keep_alive = new Request("_");
+                c->Push(keep_alive, false, 0, false);
+
+                // update the timeout
+                Utils::SetTimerFdTimeout(
+                    c->our_sa_timer,
+                    c->our_sa_interval);
+            }
         }
         // *********************
         // their not-alive event
         // *********************
         if (pollfds[3].revents & POLLIN) {
-            // close, they're timed out.
-            break;
+            // close, they're timed out
+            // (unless something has just been received)
+            uint64_t void_buf;
+            if (read(pollfds[3].fd, &void_buf, sizeof(void_buf)) > 0)
+                break;
         }
         // **********
         // push event
@@ -250,6 +254,11 @@ bool DowowNetwork::Connection::Receive() {
             // the connection is broken
             return false;
         } else {
+            // update the timeout
+            Utils::SetTimerFdTimeout(
+                their_na_timer,
+                their_na_interval);
+
             // good, increase the offset
             recv_buffer_offset += recv_res;
 
@@ -298,6 +307,11 @@ bool DowowNetwork::Connection::Receive() {
             // connection is broken
             return false;
         } else {
+            // update the timeout
+            Utils::SetTimerFdTimeout(
+                their_na_timer,
+                their_na_interval);
+
             // increase the offset
             recv_buffer_offset += recv_res;
 
@@ -335,11 +349,6 @@ bool DowowNetwork::Connection::Receive() {
         }
     }
 
-    // update the timeout
-    Utils::SetTimerFdTimeout(
-        their_na_timer,
-        their_na_interval);
-
     // good
     return true;
 }
@@ -470,8 +479,10 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     to_stop_event = eventfd(0, 0);
 
     // create the timers for keep-alive mechanism
-    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, 0);
-    their_na_timer = timerfd_create(CLOCK_MONOTONIC, 0);
+    // (nonblocking: a timer that is restarted after it expired
+    //  has nothing to read anymore)
+    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
+    their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-- 
2.43.0


From 84bbdd21268f2a03d87d19900f6dbcf0d0b6f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 11/41] fix: make a graceful disconnection close the connection
 once everything is sent

---
 Connection.cpp | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index a34d395..0adac4e 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -39,18 +39,25 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     while (true) {
         // lock connected/disconnecting mutex
         c->mutex_cd.lock();
+        // disconnecting and everything is sent
+        if (c->is_disconnecting && !c->HasSomethingToSend()) {
+            c->mutex_cd.unlock();
+            break;
+        }
         // create the fds for poll
         pollfd pollfds[5];
         // add 'to_stop' event
         pollfds[0].fd = c->to_stop_event;
         pollfds[0].events = POLLIN;
         // add socket fd
-        // remark:  we wait for input only if not disconnecting,
+        // remark:  we wait for input even if disconnecting (it is
+        //          dropped then, but the other side might not read
+        //          before it is able to write),
         //          we wait for output only if we have something
         //          to send.
         pollfds[1].fd = c->socket_fd;
         pollfds[1].events =
-            (!c->is_disconnecting ? POLLIN : 0) |
+            POLLIN |
             (c->HasSomethingToSend() ? POLLOUT : 0);
         // our still-alive timer
         pollfds[2].fd = c->our_sa_timer;
@@ -325,8 +332,8 @@ bool DowowNetwork::Connection::Receive() {
                     // fail :-(
                     delete req;
                 } else {
-                    // check if keep_alive
-                    if (req->GetName() == "_") {
+                    // check if keep_alive, or if not interested anymore
+                    if (req->GetName() == "_" || is_disconnecting) {
                         // just delete it
                         delete req;
                     } else {
@@ -384,21 +391,8 @@ bool DowowNetwork::Connection::Send() {
             // increase offset
             send_buffer_offset += send_res;
             // sent everything
-            if (send_buffer_offset == send_buffer_length) {
+            if (send_buffer_offset == send_buffer_length)
                 DeleteSendBuffer();
-                
-                // lock
-                MTLock(__mcd, mutex_cd);
-
-                // check if disconnecting and no data left
-                if (is_disconnecting &&
-                    !HasSomethingToSend())
-                {
-                    // let the background thread think that
-                    // the connection is dead.
-                    return false;
-                }
-            }
         }
     }
 
@@ -696,14 +690,11 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
+        // graceful: mark for disconnection
         is_disconnecting = true;
-        // graceful
-        Request *dummy = new Request("_");
-        // push a dummy request so that the
-        // thread will call Send() and
-        // eventually stop
-        Push(dummy, false, 0, false);
+        // wake the thread up, it will stop
+        // as soon as everything is sent
+        Utils::WriteEventFd(push_event, 1);
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From 55c5134bd31efafea65d9d04c85d65c2af4f3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 12/41] fix: wait for the last reference without blocking those
 who hold it

---
 Connection.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 0adac4e..140a99b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -141,7 +141,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     }
 
     // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
+    c->mutex_cd.lock();
 
     // mark as disconnecting
     c->is_disconnecting = true;
@@ -154,21 +154,33 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
 
     // lock the reference counter
     c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
+    // still referenced by external code
+    while (c->GetRefs()) {
+        // setup event
+        if (c->not_needed_event == -1)
+            c->not_needed_event = eventfd(0, 0);
+
+        // those who hold a reference may need the mutexes
+        c->mutex_ra.unlock();
+        c->mutex_cd.unlock();
 
-    // needed by someone
-    if (c->not_needed_event != -1) {
         // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
+        Utils::ReadEventFd(c->not_needed_event, -1);
 
-        // close the event
+        // it may be referenced again, check once more
+        c->mutex_cd.lock();
+        c->mutex_ra.lock();
+    }
+    // close the event
+    if (c->not_needed_event != -1) {
         close(c->not_needed_event);
         c->not_needed_event = -1;
     }
+    // mark as undefined, so that nobody would take
+    // a new reference and keep it
+    c->socket_type = SocketTypeUndefined;
+    // unlock the reference counter
+    c->mutex_ra.unlock();
 
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
@@ -191,11 +203,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     // ... but do not delete the receive queue,
     //     it might be needed after disconnection.
 
-    // mark as undefined
-    c->socket_type = SocketTypeUndefined;
-
     // notify about stop
     Utils::WriteEventFd(c->stopped_event, 1);
+
+    // unlock the connected/disconnecting mutex
+    c->mutex_cd.unlock();
 }
 
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
@@ -672,7 +684,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (!refs_amount && not_needed_event != -1)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
-- 
2.43.0


From 72249bfacba383b5b1de2fccbfc08d2aa6f64e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 13/41] fix: do not let a connection stop between the check and
 the queueing of a pushed request

---
 Connection.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 140a99b..16b4b34 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -557,17 +557,15 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock (until it is queued: must not get disconnected meanwhile)
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From 6c0759461b775d087e77984095669728540d50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 14/41] fix: delete the requests that were never pulled with
 the connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 16b4b34..624c679 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -813,6 +813,12 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // delete the requests nobody has pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From 2b8b0c4268cc19feb4441856de8d225bc392e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 15/41] fix: make Pull() wait in seconds, for every caller and
 no longer than the connection

---
 Connection.cpp | 86 ++++++++++++++++++--------------------------------
 Connection.hpp | 17 +++++++---
 2 files changed, 42 insertions(+), 61 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 624c679..92d2179 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -147,10 +147,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->is_disconnecting = true;
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
-        Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.lock();
+    c->is_recv_active = false;
+    c->cond_rq.notify_all();
+    c->mutex_rq.unlock();
 
     // lock the reference counter
     c->mutex_ra.lock();
@@ -353,12 +353,9 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
-
                             // queue updated, notify outer code
-                            if (receive_event != -1) {
-                                Utils::WriteEventFd(receive_event, 1);
-                            }
+                            cond_rq.notify_all();
+                            mutex_rq.unlock();
                         }
                     }
                 }
@@ -508,6 +505,9 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         delete recv_queue.front();
         recv_queue.pop();
     }
+    // going to receive, those who waited before are not concerned
+    is_recv_active = true;
+    recv_generation++;
     mutex_rq.unlock();
 
     // assign the socket
@@ -614,57 +614,31 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // may be needed after the disconnection
 
     // lock the receive queue
-    mutex_rq.lock();
+    std::unique_lock<std::mutex> __mrq(mutex_rq);
+
+    // whether there is nothing to wait for
+    uint32_t generation = recv_generation;
+    auto is_over = [&]() {
+        return
+            recv_queue.size() ||
+            !is_recv_active ||
+            recv_generation != generation;
+    };
+
+    // wait if needed
+    if (timeout > 0)
+        cond_rq.wait_for(__mrq, std::chrono::seconds(timeout), is_over);
+    else if (timeout < 0)
+        cond_rq.wait(__mrq, is_over);
 
     // check if has elements
-    if (recv_queue.size()) {
-        // pop
-        Request *req = recv_queue.front();
-        recv_queue.pop();
-
-        // unlock
-        mutex_rq.unlock();
-        return req;
-    }
-
-    // no timeout
-    if (!timeout) {
-        mutex_rq.unlock();
-        return 0;
-    }
-
-    // someone is already waiting for Pull, quit
-    if (receive_event != -1) {
-        mutex_rq.unlock();
+    if (!recv_queue.size())
         return 0;
-    }
-
-    // set up receive event
-    receive_event = eventfd(0, 0);
-
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
-    // unlock
-    mutex_rq.unlock();
-
-    // poll
-    poll(&pollfds, 1, timeout);
-
-    // lock
-    mutex_rq.lock();
-
-    // get the result
-    Request *res = Pull(0);
-
-    // close the eventfd
-    close(receive_event);
-    receive_event = -1;
-
-    // unlock
-    mutex_rq.unlock();
 
-    return res;
+    // pop
+    Request *req = recv_queue.front();
+    recv_queue.pop();
+    return req;
 }
 
 uint32_t DowowNetwork::Connection::GetRefs() {
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..97f2cf8 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -20,6 +20,7 @@
 #endif
 
 #include <mutex>
+#include <condition_variable>
 #include <thread>
 
 #include "Utils.hpp"
@@ -43,7 +44,9 @@ namespace DowowNetwork {
         //! mutex for send queue
         std::recursive_mutex mutex_sq;
         //! mutex for receive queue
-        std::recursive_mutex mutex_rq;
+        std::mutex mutex_rq;
+        //! receive queue has changed or nothing will be received anymore
+        std::condition_variable cond_rq;
         //! mutex for free request id
         std::recursive_mutex mutex_fri;
         //! mutex for refs amount
@@ -94,6 +97,10 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! May something still be pushed to the receive queue?
+        bool is_recv_active = false;
+        //! The number of times the receive queue was started.
+        uint32_t recv_generation = 0;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
 
@@ -111,8 +118,6 @@ namespace DowowNetwork {
         int to_stop_event = -1;
         //! 'stopped' event
         int stopped_event = -1;
-        //! receive event
-        int receive_event = -1;
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
@@ -243,9 +248,11 @@ namespace DowowNetwork {
 
         //! Pull the request from the receive queue.
         /*! MT-Safe.
-         *  \param timeout how long to wait for request?
+         *  \param timeout how long to wait for request (seconds)?
+         *          Zero to not wait, negative to wait infinitely long.
          *  \return The pulled request on success, null-pointer if
-         *          the queue is empty.
+         *          the queue is empty. Nobody waits longer than the
+         *          connection lasts.
          */
         Request* Pull(int timeout = 0);
 
-- 
2.43.0


From da936ad840bdebbfe1fb45aeeaa8721f9d5336c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 16/41] fix: do not lose a stop when the connection is made
 anew before the waiters wake up

---
 Connection.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 Connection.hpp | 16 ++++++++++++++++
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 92d2179..e2e32c6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -204,7 +204,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     //     it might be needed after disconnection.
 
     // notify about stop
+    c->mutex_st.lock();
+    c->stopped_amount = c->started_amount;
+    c->cond_st.notify_all();
     Utils::WriteEventFd(c->stopped_event, 1);
+    c->mutex_st.unlock();
 
     // unlock the connected/disconnecting mutex
     c->mutex_cd.unlock();
@@ -447,9 +451,9 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // check if background thread exists
     if (background_thread) {
-        // just detach it, nothing bad
-        // will happen, because not connected
-        background_thread->detach();
+        // wait for it to exit, it has nothing left
+        // to do, because not connected
+        background_thread->join();
         // free memory
         delete background_thread;
     }
@@ -475,7 +479,10 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     }
 
     // reset the stopped event
+    mutex_st.lock();
     Utils::ReadEventFd(stopped_event, 0);
+    started_amount++;
+    mutex_st.unlock();
 
     // initialize the events
     push_event = eventfd(0, 0);
@@ -681,11 +688,14 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         Utils::WriteEventFd(push_event, 1);
     }
 
+    // the connection to wait for
+    uint32_t number = started_amount;
+
     mutex_cd.unlock();
 
     // waiting for join
     if (wait_for_join)
-        WaitForStop(-1);
+        WaitForStopOf(number, -1);
 }
 
 bool DowowNetwork::Connection::IsConnected() {
@@ -707,7 +717,27 @@ int DowowNetwork::Connection::GetStoppedEvent() {
 }
 
 bool DowowNetwork::Connection::WaitForStop(int timeout) {
-    return Utils::SelectRead(GetStoppedEvent(), timeout);
+    mutex_st.lock();
+    // not started yet - wait for the first connection
+    uint32_t number = started_amount ? started_amount : 1;
+    mutex_st.unlock();
+
+    return WaitForStopOf(number, timeout);
+}
+
+bool DowowNetwork::Connection::WaitForStopOf(uint32_t number, int timeout) {
+    std::unique_lock<std::mutex> __mst(mutex_st);
+
+    // another connection may have been started since then
+    auto is_stopped = [&]() { return stopped_amount >= number; };
+
+    // no limit
+    if (timeout < 0) {
+        cond_st.wait(__mst, is_stopped);
+        return true;
+    }
+
+    return cond_st.wait_for(__mst, std::chrono::seconds(timeout), is_stopped);
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
diff --git a/Connection.hpp b/Connection.hpp
index 97f2cf8..99029e1 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -55,6 +55,14 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for the amounts of started and stopped connections
+        std::mutex mutex_st;
+        //! the connection has stopped
+        std::condition_variable cond_st;
+        //! The number of connections started.
+        uint32_t started_amount = 0;
+        //! The number of connections started that have stopped.
+        uint32_t stopped_amount = 0;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
@@ -143,6 +151,14 @@ namespace DowowNetwork {
          */
         static void ConnThreadFunc(Connection* conn);
 
+        //! Wait until the connection with the given number stops.
+        /*!
+            \param number starts with 1
+            \param timeout in seconds, negative for no limit
+            \return     has it stopped?
+        */
+        bool WaitForStopOf(uint32_t number, int timeout);
+
         //! Check if has something to send.
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
-- 
2.43.0


From a22d841becd7fa1371dbc54e09aa4d7b53877f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 17/41] fix: synchronise the connection state that is used by
 several threads

---
 Connection.cpp | 12 ++++++++++--
 Connection.hpp | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index e2e32c6..665d2e2 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -317,12 +317,14 @@ bool DowowNetwork::Connection::Receive() {
         // bytes left to receive
         uint32_t bytes_left =
             recv_buffer_length - recv_buffer_offset;
+        // bytes to receive at a time
+        uint32_t block_size = recv_block_size;
 
         // receive
         int recv_res = recv(
             socket_fd,
             recv_buffer + recv_buffer_offset,
-            bytes_left < recv_block_size ? bytes_left : recv_block_size,
+            bytes_left < block_size ? bytes_left : block_size,
             0);
 
         // check results
@@ -387,13 +389,15 @@ bool DowowNetwork::Connection::Send() {
         // bytes left to send
         uint32_t left_to_send =
             send_buffer_length - send_buffer_offset;
+        // bytes to send at a time
+        uint32_t block_size = send_block_size;
 
         // write to the socket.
         // MSG_NOSIGNAL to disable broken pipe signal
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
-            left_to_send < send_block_size ? left_to_send : send_block_size,
+            left_to_send < block_size ? left_to_send : block_size,
             MSG_NOSIGNAL);
 
         // check result
@@ -741,14 +745,17 @@ bool DowowNetwork::Connection::WaitForStopOf(uint32_t number, int timeout) {
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
+    MTLock(__mh, mutex_h);
     handler_default = h;
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
+    MTLock(__mh, mutex_h);
     return handler_default;
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    MTLock(__mh, mutex_h);
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -763,6 +770,7 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    MTLock(__mh, mutex_h);
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index 99029e1..603e710 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -19,6 +19,7 @@
 #include <ctime>
 #endif
 
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 #include <thread>
@@ -55,6 +56,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for the request handlers
+        std::mutex mutex_h;
         //! mutex for the amounts of started and stopped connections
         std::mutex mutex_st;
         //! the connection has stopped
@@ -69,18 +72,18 @@ namespace DowowNetwork {
         //! Use even or odd request ids?
         bool is_even_request_parts = false;
         //! Is disconnection in progress?
-        bool is_disconnecting = false;
+        std::atomic<bool> is_disconnecting{ false };
 
         //! The socket file descriptor.
         int socket_fd = -1;
 
         //! The socket type.
         //! SocketTypeUndefined is interpreted as 'not connected'
-        uint8_t socket_type = SocketTypeUndefined;
+        std::atomic<uint8_t> socket_type{ SocketTypeUndefined };
 
         //! The maximum amount of bytes we will attempt to send
         //! at a time.
-        uint32_t send_block_size = 1024;
+        std::atomic<uint32_t> send_block_size{ 1024 };
         //! The send buffer.
         const char* send_buffer = 0;
         //! The length of the send buffer.
@@ -92,11 +95,11 @@ namespace DowowNetwork {
 
         //! The maximum amount of bytes we will attempt to receive
         //! at a time.
-        uint32_t recv_block_size = 1024;
+        std::atomic<uint32_t> recv_block_size{ 1024 };
         //! The maxiumum allowed size of the receive buffer.
         //! The connection will be closed if they'll try to violate
         //! this limit.
-        uint32_t recv_buffer_max_length = 16 * 1024;
+        std::atomic<uint32_t> recv_buffer_max_length{ 16 * 1024 };
         //! The receive buffer.
         char* recv_buffer = 0;
         //! The receive buffer length.
@@ -134,9 +137,9 @@ namespace DowowNetwork {
         int their_na_timer = -1;
 
         //! Our keep_alive interval
-        time_t our_sa_interval = 10;
+        std::atomic<time_t> our_sa_interval{ 10 };
         //! The amount of time they are considered disconnected after.
-        time_t their_na_interval = 60;
+        std::atomic<time_t> their_na_interval{ 60 };
 
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
-- 
2.43.0


From 1db0480d8a70e46c8f4d4e29909efd3e34627f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 18/41] fix: do not set timers that do not exist (anymore) when
 an interval is changed

---
 Connection.cpp | 37 +++++++++++++++++++++++--------------
 Connection.hpp |  3 +++
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 665d2e2..89ad105 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -116,9 +116,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
                 c->Push(keep_alive, false, 0, false);
 
                 // update the timeout
-                Utils::SetTimerFdTimeout(
-                    c->our_sa_timer,
-                    c->our_sa_interval);
+                c->RestartTimer(c->our_sa_timer, c->our_sa_interval);
             }
         }
         // *********************
@@ -189,6 +187,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->to_stop_event);
     close(c->our_sa_timer);
     close(c->their_na_timer);
+    c->socket_fd = -1;
+    c->push_event = -1;
+    c->to_stop_event = -1;
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
 
     // delete buffers
     c->DeleteSendBuffer();
@@ -278,9 +281,7 @@ bool DowowNetwork::Connection::Receive() {
             return false;
         } else {
             // update the timeout
-            Utils::SetTimerFdTimeout(
-                their_na_timer,
-                their_na_interval);
+            RestartTimer(their_na_timer, their_na_interval);
 
             // good, increase the offset
             recv_buffer_offset += recv_res;
@@ -333,9 +334,7 @@ bool DowowNetwork::Connection::Receive() {
             return false;
         } else {
             // update the timeout
-            Utils::SetTimerFdTimeout(
-                their_na_timer,
-                their_na_interval);
+            RestartTimer(their_na_timer, their_na_interval);
 
             // increase the offset
             recv_buffer_offset += recv_res;
@@ -414,14 +413,20 @@ bool DowowNetwork::Connection::Send() {
     }
 
     // update the timeout
-    Utils::SetTimerFdTimeout(
-        our_sa_timer,
-        our_sa_interval);
+    RestartTimer(our_sa_timer, our_sa_interval);
 
     // success
     return true;
 }
 
+void DowowNetwork::Connection::RestartTimer(const int& fd, const std::atomic<time_t>& interval) {
+    // lock: the interval may be changed meanwhile
+    MTLock(__mcd, mutex_cd);
+    // there's no timer if not connected
+    if (fd != -1)
+        Utils::SetTimerFdTimeout(fd, interval);
+}
+
 bool DowowNetwork::Connection::PopSendQueue() {
     // Lock the send queue
     MTLock(__msq, mutex_sq);
@@ -550,8 +555,10 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    // lock
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
+    RestartTimer(our_sa_timer, our_sa_interval);
 }
 
 time_t DowowNetwork::Connection::GetOurSaInterval() {
@@ -559,8 +566,10 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    // lock
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
+    RestartTimer(their_na_timer, their_na_interval);
 }
 
 time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
diff --git a/Connection.hpp b/Connection.hpp
index 603e710..a59a11d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -166,6 +166,9 @@ namespace DowowNetwork {
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
 
+        //! Restart one of the keep-alive timers (if it exists).
+        void RestartTimer(const int& fd, const std::atomic<time_t>& interval);
+
         //! Pass the Requests through assigned handlers.
         /*!
             \return
-- 
2.43.0


From d6f7220ff8ec58e5873a3e056f227b4c170f88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 19/41] fix: do not hold the state mutex while handlers run

---
 Connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 89ad105..d7e5147 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -77,8 +77,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
+        // remark:  connected/disconnecting mutex is not locked here:
+        //          handlers may do whatever they want with other
+        //          connections, whose handlers may do the same
+        //          with this one
 
         // ***************
         // 'to_stop' event
-- 
2.43.0


From c462a1faf5c6786286f3e827f11ddc383e969863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 20/41] fix: do not block on the other side, nor close when a
 system call is interrupted

---
 Connection.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index d7e5147..cd44a54 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -1,6 +1,7 @@
 #include "Connection.hpp"
 
 #include <cstring>
+#include <cerrno>
 #include <endian.h>
 #include <unistd.h>
 #include <stdint.h>
@@ -28,6 +29,11 @@ using namespace std;
 
 #define MTLock(name, mut) std::lock_guard<typeof(mut)> name(mut);
 
+//! Check if an I/O operation failed just because it has to be repeated.
+static bool IsTemporary(int error) {
+    return error == EAGAIN || error == EWOULDBLOCK || error == EINTR;
+}
+
 bool DowowNetwork::Connection::HasSomethingToSend() {
     MTLock(__msq, mutex_sq);
     return
@@ -72,11 +78,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
+        // interrupted, no event is set
+        if (poll_res == -1) continue;
+
         // remark:  connected/disconnecting mutex is not locked here:
         //          handlers may do whatever they want with other
         //          connections, whose handlers may do the same
@@ -275,10 +284,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && IsTemporary(errno)) {
+            // nothing to receive yet
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // the connection is broken
             return false;
         } else {
@@ -328,10 +340,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             recv_buffer + recv_buffer_offset,
             bytes_left < block_size ? bytes_left : block_size,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && IsTemporary(errno)) {
+            // nothing to receive yet
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // connection is broken
             return false;
         } else {
@@ -394,15 +409,19 @@ bool DowowNetwork::Connection::Send() {
         uint32_t block_size = send_block_size;
 
         // write to the socket.
-        // MSG_NOSIGNAL to disable broken pipe signal
+        // MSG_NOSIGNAL to disable broken pipe signal,
+        // MSG_DONTWAIT to not wait for the other side to read
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < block_size ? left_to_send : block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
 
         // check result
-        if (send_res == -1 || send_res == 0) {
+        if (send_res == -1 && IsTemporary(errno)) {
+            // can't send more yet
+            return true;
+        } else if (send_res == -1 || send_res == 0) {
             // the connection is broken
             return false;
         } else {
-- 
2.43.0


From 048532eb381d9aded7e595adfc7e02a6ee48c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 21/41] fix: wait as long as requested even if interrupted or
 requested to wait for weeks

---
 Utils.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..cee0871 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -4,22 +4,48 @@
 #include <sys/poll.h>
 #include <sys/timerfd.h>
 #include <time.h>
+#include <errno.h>
+#include <limits.h>
+
+#include <chrono>
 
 // zero timespan
 const timespec zero_time { 0, 0 };
 
-bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
-    pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+// Poll one event of one descriptor, continue when interrupted.
+static bool PollOne(int fd, short event, int seconds) {
+    using namespace std::chrono;
+
+    pollfd pollfds { fd, event, 0 };
+    auto deadline = steady_clock::now() + std::chrono::seconds(seconds);
+    int64_t left_ms = seconds * 1000LL;
+
+    while (true) {
+        // poll() isn't able to wait for longer than INT_MAX at a time
+        int timeout =
+            seconds < 0 ? -1 :
+            left_ms > INT_MAX ? INT_MAX : static_cast<int>(left_ms);
+        int res = poll(&pollfds, 1, timeout);
+
+        // the event or an error
+        if (res > 0) return pollfds.revents & event;
+        if (res == -1 && errno != EINTR) return false;
+        // no limit
+        if (seconds < 0) continue;
 
-    return pollfds.revents & POLLOUT;
+        // check if timed out
+        auto left = deadline - steady_clock::now();
+        if (left <= left.zero()) return false;
+        left_ms = duration_cast<milliseconds>(left).count() + 1;
+    }
 }
 
-bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
-    pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
+    return PollOne(fd, POLLOUT, seconds);
+}
 
-    return pollfds.revents & POLLIN;
+bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
+    return PollOne(fd, POLLIN, seconds);
 }
 
 void DowowNetwork::Utils::WriteEventFd(int fd, uint64_t num) {
-- 
2.43.0


From 00619744e221d0238ca5f6b1a3ce9f3a0cc8a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 22/41] fix: deliver what was received before a failure to send

---
 Connection.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index cd44a54..080823d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -42,11 +42,15 @@ bool DowowNetwork::Connection::HasSomethingToSend() {
 }
 
 void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
+    // sending is impossible, receiving what has already arrived
+    bool is_send_broken = false;
+
     while (true) {
         // lock connected/disconnecting mutex
         c->mutex_cd.lock();
         // disconnecting and everything is sent
-        if (c->is_disconnecting && !c->HasSomethingToSend()) {
+        bool has_to_send = !is_send_broken && c->HasSomethingToSend();
+        if (c->is_disconnecting && !has_to_send) {
             c->mutex_cd.unlock();
             break;
         }
@@ -64,7 +68,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         pollfds[1].fd = c->socket_fd;
         pollfds[1].events =
             POLLIN |
-            (c->HasSomethingToSend() ? POLLOUT : 0);
+            (has_to_send ? POLLOUT : 0);
         // our still-alive timer
         pollfds[2].fd = c->our_sa_timer;
         pollfds[2].events = POLLIN;
@@ -81,10 +85,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
-            -1);
+            is_send_broken ? 0 : -1);
 
         // interrupted, no event is set
         if (poll_res == -1) continue;
+        // nothing left to receive after a failure
+        if (poll_res == 0) break;
 
         // remark:  connected/disconnecting mutex is not locked here:
         //          handlers may do whatever they want with other
@@ -111,10 +117,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         }
         if (pollfds[1].revents & POLLOUT) {
             if (!c->Send()) {
-                // error
-                break;
+                // error, but something may be received still
+                is_send_broken = true;
             }
         }
+        if (pollfds[1].revents && !(pollfds[1].revents & (POLLIN | POLLOUT))) {
+            // error
+            break;
+        }
         // *********************
         // our still-alive event
         // *********************
-- 
2.43.0


From 340208cb8cc80d20f8abec18070fa63d6e6f947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 23/41] fix: make Push() wait for the response when it is given
 a timeout

---
 Connection.cpp | 58 ++++++++++++++++++++++++++++++++++++++++++++++----
 Connection.hpp | 10 +++++++++
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 080823d..0914d23 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -238,6 +238,23 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_cd.unlock();
 }
 
+bool DowowNetwork::Connection::PassToWaiting(Request* r) {
+    MTLock(__mrq, mutex_rq);
+
+    // find the one who has waited for longer
+    auto range = awaited_responses.equal_range(r->GetId());
+    for (auto it = range.first; it != range.second; ++it) {
+        // has got a response already
+        if (*it->second) continue;
+
+        *it->second = r;
+        cond_rq.notify_all();
+        return true;
+    }
+
+    return false;
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -382,7 +399,8 @@ bool DowowNetwork::Connection::Receive() {
                         delete req;
                     } else {
                         // try to process using handlers
-                        if (!PassThroughHandlers(req)) {
+                        // (unless it is a response somebody waits for)
+                        if (!PassToWaiting(req) && !PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
                             // queue updated, notify outer code
@@ -609,7 +627,7 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
     // lock (until it is queued: must not get disconnected meanwhile)
-    MTLock(__mcd, mutex_cd);
+    std::unique_lock<typeof(mutex_cd)> __mcd(mutex_cd);
 
     // not connected or disconnecting
     if (!IsConnected() || IsDisconnecting()) {
@@ -620,7 +638,7 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
     }
 
     // lock the send queue
-    MTLock(__msq, mutex_sq);
+    std::unique_lock<typeof(mutex_sq)> __msq(mutex_sq);
 
     // copy the request if needed
     if (must_copy) {
@@ -643,13 +661,45 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         free_request_id += 2;
     }
 
+    // going to wait for the response, must not miss it
+    Request* response = 0;
+    mutex_rq.lock();
+    uint32_t generation = recv_generation;
+    auto awaited = awaited_responses.end();
+    if (timeout)
+        awaited = awaited_responses.insert({ req_id, &response });
+    mutex_rq.unlock();
+
     // push to queue
     send_queue.push(req);
 
     // notify the thread
     Utils::WriteEventFd(push_event, 1);
 
-    return 0;
+    // no need to wait
+    if (!timeout)
+        return 0;
+
+    // others may push and disconnect meanwhile
+    __msq.unlock();
+    __mcd.unlock();
+
+    // wait for the response
+    std::unique_lock<std::mutex> __mrq(mutex_rq);
+    auto is_over = [&]() {
+        return
+            response ||
+            !is_recv_active ||
+            recv_generation != generation;
+    };
+    if (timeout > 0)
+        cond_rq.wait_for(__mrq, std::chrono::seconds(timeout), is_over);
+    else
+        cond_rq.wait(__mrq, is_over);
+
+    // not interested anymore
+    awaited_responses.erase(awaited);
+    return response;
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(const Request& req, int timeout, bool change_request_id) {
diff --git a/Connection.hpp b/Connection.hpp
index a59a11d..76ae2af 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -108,6 +108,9 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! The responses Push() is waiting for: request id and the
+        //! place to store the response at (guarded by mutex_rq).
+        std::multimap<uint32_t, Request**> awaited_responses;
         //! May something still be pushed to the receive queue?
         bool is_recv_active = false;
         //! The number of times the receive queue was started.
@@ -169,6 +172,13 @@ namespace DowowNetwork {
         //! Restart one of the keep-alive timers (if it exists).
         void RestartTimer(const int& fd, const std::atomic<time_t>& interval);
 
+        //! Pass the Request to the Push() call that waits for it.
+        /*!
+            \return
+                Does anyone wait for this Request?
+        */
+        bool PassToWaiting(Request* req);
+
         //! Pass the Requests through assigned handlers.
         /*!
             \return
-- 
2.43.0


From 00caa32d483cc166da78cee5d8c807e7142af8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 24/41] fix: let only one thread connect, and do not leave a
 connecting thread behind

---
 Client.cpp | 18 ++++++++++++++++--
 Client.hpp |  6 +++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index b12e586..9e96fe2 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -110,6 +110,11 @@ DowowNetwork::Client::Client() : Connection() {
 
 
 bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout) {
+    // only one can connect at a time
+    std::unique_lock<std::mutex> __mc(mutex_connect, std::try_to_lock);
+    if (!__mc.owns_lock())
+        return false;
+
     // check if connected or connecting
     if (IsConnected() || IsConnecting())
         return false;
@@ -130,11 +135,13 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
     connect_event = eventfd(0, 0);
 
     std::thread t(TcpThreadFunc, this, ip, port, timeout);
-    t.detach();
 
     // read
     Utils::ReadEventFd(connect_event, -1);
 
+    // it must not outlive the event and the client
+    t.join();
+
     // close event
     close(connect_event);
     connect_event = -1;
@@ -144,6 +151,11 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 }
 
 bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
+    // only one can connect at a time
+    std::unique_lock<std::mutex> __mc(mutex_connect, std::try_to_lock);
+    if (!__mc.owns_lock())
+        return false;
+
     // check if connected or connecting
     if (IsConnected() || IsConnecting())
         return false;
@@ -165,11 +177,13 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
 
     // create a thread for connection
     std::thread t(UnixThreadFunc, this, socket_path, timeout);
-    t.detach();
 
     // read
     Utils::ReadEventFd(connect_event, -1);
 
+    // it must not outlive the event and the client
+    t.join();
+
     // close event
     close(connect_event);
     connect_event = -1;
diff --git a/Client.hpp b/Client.hpp
index 1a9a3cd..7ef838b 100644
--- a/Client.hpp
+++ b/Client.hpp
@@ -10,6 +10,7 @@
 #include "Connection.hpp"
 #include "SocketType.hpp"
 
+#include <atomic>
 #include <mutex>
 
 namespace DowowNetwork {
@@ -23,8 +24,11 @@ namespace DowowNetwork {
         // mutex for temp socket
         std::mutex mutex_tsfd;
 
+        // mutex that is locked by the one who connects
+        std::mutex mutex_connect;
+
         // file descriptor for a socket trying to connect to the server
-        int temp_socket_fd = -1;
+        std::atomic<int> temp_socket_fd{ -1 };
 
         // connecting thread event
         int connect_event = -1;
-- 
2.43.0


From db17b5b03b14399c9b4496963d802c7c73f20747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 25/41] fix: honour the timeout when connecting, whatever
 interrupts it

---
 Client.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 9e96fe2..80597ba 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -46,7 +46,13 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        int error = 0;
+        socklen_t len = sizeof(error);
+        if (Utils::SelectWrite(c->temp_socket_fd, timeout) &&
+            !getsockopt(c->temp_socket_fd, SOL_SOCKET, SO_ERROR, &error, &len))
+        {
+            connect_res = error ? -1 : 0;
+        }
     }
 
     // fail
@@ -77,14 +83,11 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     addr.sun_family = AF_UNIX;
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
-    // connect
-    int connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
-
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+    // connect, try again if interrupted
+    int connect_res;
+    do {
+        connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
+    } while (connect_res == -1 && errno == EINTR);
 
     // fail
     if (connect_res) {
@@ -128,8 +131,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    fcntl(temp_socket_fd, F_SETFL, O_NONBLOCK);
 
     // create event
     connect_event = eventfd(0, 0);
@@ -168,9 +170,14 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (temp_socket_fd == -1)
         return false;
 
-    // make socket nonblocking
-    int nb_state = 1;
-    fcntl(temp_socket_fd, F_SETFL, nb_state);
+    // limit the time: a nonblocking UNIX socket doesn't wait
+    // for the server to accept at all
+    if (timeout > 0) {
+        timeval limit { timeout, 0 };
+        setsockopt(temp_socket_fd, SOL_SOCKET, SO_SNDTIMEO, &limit, sizeof(limit));
+    } else if (timeout == 0) {
+        fcntl(temp_socket_fd, F_SETFL, O_NONBLOCK);
+    }
 
     // create event
     connect_event = eventfd(0, 0);
-- 
2.43.0


From 9dc09c168fb994b0c4aa724ec5220c42bebdb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 26/41] fix: refuse UNIX socket paths that do not fit the
 address

---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index 80597ba..5491788 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -162,6 +162,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // check if the path fits
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index a880342..878335b 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -178,6 +178,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // check if the path fits
+    if (path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
-- 
2.43.0


From b341bbb616dc68276051f01a555bb88d59c78d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 27/41] fix: do not call the server handlers that are not set

---
 Server.cpp | 6 ++++--
 Server.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 878335b..6cd1a43 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -94,8 +94,10 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         i = 0;
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                // call 'disconnected' handler if set
+                if (s->GetDisconnectedHandler()) {
+                    (*s->GetDisconnectedHandler())(s, c);
+                }
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..bd80505 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -40,8 +40,8 @@ namespace DowowNetwork {
         std::string unix_socket_path;
 
         // tcp (host byteorder)
-        uint32_t tcp_socket_address;
-        uint16_t tcp_socket_port;
+        uint32_t tcp_socket_address = 0;
+        uint16_t tcp_socket_port = 0;
 
         //! 'stopped' event.
         //! Occurs when the server is stopped.
@@ -57,10 +57,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From f11576f2e3c335b499fbe24f14607964544dd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 28/41] fix: keep the server running when it is interrupted or
 fails to accept

---
 Server.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 6cd1a43..4400c10 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -69,11 +69,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
             -1);
 
+        // interrupted, no event is set
+        if (poll_res == -1) {
+            delete[] pollfds;
+            continue;
+        }
+
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
@@ -122,13 +128,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             }
         }
 
-        // *************************************
-        // no new connections, no deleted - quit
-        // *************************************
-        else if (!deleted_conns.size()) {
-            delete[] pollfds;
-            break;
-        }
+
 
         // free memory
         delete[] pollfds;
@@ -185,7 +185,8 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
 
     // try to create a socket
-    socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
+    // (nonblocking: a client may disappear before it is accepted)
+    socket_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
     if (socket_fd == -1) return false;
 
@@ -251,7 +252,8 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
 
     // try to create a socket
-    socket_fd = socket(AF_INET, SOCK_STREAM, 0);
+    // (nonblocking: a client may disappear before it is accepted)
+    socket_fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
     // check if failed
     if (socket_fd == -1)
         return false;
-- 
2.43.0


From 1d0c289ec74939fc7a0c8c8eb0370bf6bacad4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 29/41] fix: set the connection up and give it an id before its
 requests are handled

---
 Connection.cpp | 40 ++++++++++++++++++++++++++++++++++------
 Connection.hpp | 13 +++++++++++++
 Server.cpp     | 18 ++++++++++++------
 Server.hpp     |  9 +++++++--
 4 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 0914d23..fdb19f4 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -50,6 +50,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.lock();
         // disconnecting and everything is sent
         bool has_to_send = !is_send_broken && c->HasSomethingToSend();
+        bool is_receiving = c->is_receiving;
         if (c->is_disconnecting && !has_to_send) {
             c->mutex_cd.unlock();
             break;
@@ -65,9 +66,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         //          before it is able to write),
         //          we wait for output only if we have something
         //          to send.
-        pollfds[1].fd = c->socket_fd;
+        pollfds[1].fd = is_receiving || has_to_send ? c->socket_fd : -1;
         pollfds[1].events =
-            POLLIN |
+            (is_receiving ? POLLIN : 0) |
             (has_to_send ? POLLOUT : 0);
         // our still-alive timer
         pollfds[2].fd = c->our_sa_timer;
@@ -85,7 +86,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
-            is_send_broken ? 0 : -1);
+            is_send_broken && is_receiving ? 0 : -1);
 
         // interrupted, no event is set
         if (poll_res == -1) continue;
@@ -122,8 +123,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             }
         }
         if (pollfds[1].revents && !(pollfds[1].revents & (POLLIN | POLLOUT))) {
-            // error
-            break;
+            // error (received data goes first, once that is allowed)
+            is_send_broken = true;
+            if (is_receiving) break;
         }
         // *********************
         // our still-alive event
@@ -597,7 +599,22 @@ void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
     }
 }
 
-DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
+void DowowNetwork::Connection::StartReceiving() {
+    // lock
+    MTLock(__mcd, mutex_cd);
+
+    is_receiving = true;
+    // let the thread know
+    if (IsConnected())
+        Utils::WriteEventFd(push_event, 1);
+}
+
+DowowNetwork::Connection::Connection(int socket_fd) : Connection(socket_fd, true) {
+
+}
+
+DowowNetwork::Connection::Connection(int socket_fd, bool is_receiving) : Connection() {
+    this->is_receiving = is_receiving;
     // before the thread is started: it may push
     SetEvenRequestIdsPart(true);
     InitializeByFD(socket_fd);
@@ -680,6 +697,10 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
     if (!timeout)
         return 0;
 
+    // waiting makes no sense if nothing is going to be received
+    if (!is_receiving)
+        StartReceiving();
+
     // others may push and disconnect meanwhile
     __msq.unlock();
     __mcd.unlock();
@@ -726,6 +747,13 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
             recv_generation != generation;
     };
 
+    // waiting makes no sense if nothing is going to be received
+    if (timeout && !is_receiving) {
+        __mrq.unlock();
+        StartReceiving();
+        __mrq.lock();
+    }
+
     // wait if needed
     if (timeout > 0)
         cond_rq.wait_for(__mrq, std::chrono::seconds(timeout), is_over);
diff --git a/Connection.hpp b/Connection.hpp
index 76ae2af..db6f24d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -31,6 +31,7 @@
 namespace DowowNetwork {
     // Predeclare the connection for typedef
     class Connection;
+    class Server;
 
     //! Request-related handler prototype.
     /*!
@@ -117,6 +118,8 @@ namespace DowowNetwork {
         uint32_t recv_generation = 0;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
+        //! Is receiving allowed?
+        std::atomic<bool> is_receiving{ true };
 
         //! Session data.
         void* session_data = 0;
@@ -237,6 +240,16 @@ namespace DowowNetwork {
 
         //! Set the even or odd request ids part.
         void SetEvenRequestIdsPart(bool state);
+
+        //! Start receiving if constructed so that it doesn't receive.
+        void StartReceiving();
+
+        //! Accepted connection, may have to wait for StartReceiving().
+        //! \sa Connection(int).
+        Connection(int socket_fd, bool is_receiving);
+
+        // makes connections receive after they are set up
+        friend class Server;
     public:
         //! Connection ID.
         uint32_t id = 0;
diff --git a/Server.cpp b/Server.cpp
index 4400c10..646f138 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,14 +20,18 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
     if (temp_fd == -1) return 0;
 
-    // create a connection
-    Connection *conn = new Connection(temp_fd);
+    // create a connection, it must not pass the requests through
+    // the handlers that are not set yet
+    Connection *conn = new Connection(temp_fd, false);
+
+    // assign the id
+    conn->id = id;
 
     // call the handler if set
     if (GetConnectedHandler()) {
@@ -118,13 +122,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
+                // the id is used
+                free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
+                // set up, let it receive the requests
+                new_conn->StartReceiving();
             }
         }
 
diff --git a/Server.hpp b/Server.hpp
index bd80505..8fcf059 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -56,14 +56,19 @@ namespace DowowNetwork {
 
         //! Handler for new connections.
         //! Called right after the polling thread for
-        //! connection is started.
+        //! connection is started. Requests are received
+        //! after the handler returns, or as soon as it starts
+        //! to wait for them.
         ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
         ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
-        Connection* AcceptOne();
+        /*!
+            \param id the id to give to the new connection
+        */
+        Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 1825c7b46f6a579e2d4f3eb455943315a52598f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 30/41] fix: do not let lookups return connections that are
 being deleted, nor lock the server while handlers run

---
 Server.cpp | 92 ++++++++++++++++++++++++++++++++++--------------------
 Server.hpp |  3 ++
 2 files changed, 61 insertions(+), 34 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 646f138..735aa23 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -84,18 +84,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             continue;
         }
 
-        // lock
-        std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
-
-        // ***************************
-        // check if 'to_stop' occurred
-        // ***************************
-        if (pollfds[1].revents & POLLIN) {
-            // free pollfds memory
-            delete[] pollfds;
-            // break the thread loop
-            break;
-        }
+        // remark:  nothing is locked here, because the handlers may do
+        //          whatever they want
 
         // ************************************
         // check if some connections are closed
@@ -103,19 +93,32 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler if set
-                if (s->GetDisconnectedHandler()) {
-                    (*s->GetDisconnectedHandler())(s, c);
-                }
-                // delete the connection
-                delete c;
+            if (pollfds[2 + i++].revents & POLLIN)
                 deleted_conns.push_back(c);
-            }
         }
-        // remove deleted connections
+        // remove deleted connections, nobody will find them
+        s->mutex_connections.lock();
         for (auto c : deleted_conns)
             s->connections.remove(c);
+        s->mutex_connections.unlock();
+        for (auto c : deleted_conns) {
+            // call 'disconnected' handler if set
+            if (s->GetDisconnectedHandler()) {
+                (*s->GetDisconnectedHandler())(s, c);
+            }
+            // delete the connection
+            delete c;
+        }
+
+        // ***************************
+        // check if 'to_stop' occurred
+        // ***************************
+        if (pollfds[1].revents & POLLIN) {
+            // free pollfds memory
+            delete[] pollfds;
+            // break the thread loop
+            break;
+        }
 
         // ***********************
         // check if new connection
@@ -128,38 +131,41 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // the id is used
                 free_conn_id++;
                 // add to the list of connections
+                s->mutex_connections.lock();
                 s->connections.push_back(new_conn);
+                s->mutex_connections.unlock();
                 // set up, let it receive the requests
                 new_conn->StartReceiving();
             }
         }
 
-
-
         // free memory
         delete[] pollfds;
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // nobody will find the connections anymore
+    std::list<Connection*> closed_conns;
+    s->mutex_connections.lock();
+    closed_conns.swap(s->connections);
+    s->mutex_connections.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    for (auto c : closed_conns)
         c->Disconnect(true);
+    for (auto c : closed_conns) {
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
-    
-    // clear
-    s->connections.clear();
 
     // notify about stop
     Utils::WriteEventFd(s->stopped_event, 1);
@@ -344,29 +350,47 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock: must not be deleted before it is referenced
+    std::lock_guard<std::mutex> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->tag == tag;
+            return c->tag == tag && c->IsConnected();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    SafeConnection *safe = new SafeConnection(*it);
+    // it might have stopped right before it was referenced
+    if (!(*it)->IsConnected()) {
+        delete safe;
+        return 0;
+    }
+    return safe;
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock: must not be deleted before it is referenced
+    std::lock_guard<std::mutex> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
         [&](Connection *c) {
-            return c->id == id;
+            return c->id == id && c->IsConnected();
         });
 
     if (it == connections.end()) return 0;
 
-    return new SafeConnection(*it);
+    SafeConnection *safe = new SafeConnection(*it);
+    // it might have stopped right before it was referenced
+    if (!(*it)->IsConnected()) {
+        delete safe;
+        return 0;
+    }
+    return safe;
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
diff --git a/Server.hpp b/Server.hpp
index 8fcf059..6c063e8 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -29,7 +29,10 @@ namespace DowowNetwork {
         // server socket
         int socket_fd = -1;
         // accepted clients
+        // (only the server thread changes the list)
         std::list<Connection*> connections;
+        // mutex for the list of accepted clients
+        std::mutex mutex_connections;
         // maximum amount of connected clients, negative for unlimited
         int32_t max_connections = -1;
 
-- 
2.43.0


From 67b23227610a90b32095035400c9dc5d26e1f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 31/41] fix: make stopping the server complete, repeatable and
 awaitable

---
 Server.cpp | 82 +++++++++++++++++++++++++++++++++++++++---------------
 Server.hpp | 30 ++++++++++++++++----
 2 files changed, 85 insertions(+), 27 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 735aa23..c522ef5 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -167,9 +167,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // close to_stop fd
     close(s->to_stop_event);
 
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -178,10 +175,33 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop
+    s->mutex_st.lock();
+    s->stopped_amount = s->started_amount;
+    s->cond_st.notify_all();
+    s->mutex_st.unlock();
 }
 
 DowowNetwork::Server::Server() {
-    stopped_event = eventfd(0, 0);
+
+}
+
+void DowowNetwork::Server::StartThread() {
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+
+    // going to have to be stopped
+    mutex_st.lock();
+    started_amount++;
+    mutex_st.unlock();
+
+    // the previous thread has nothing left to do
+    if (server_thread.joinable())
+        server_thread.join();
+
+    // start the thread
+    server_thread = std::thread(ServerThreadFunc, this);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -242,12 +262,8 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    StartThread();
 
     return true;
 }
@@ -313,12 +329,8 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    StartThread();
 
     return true;
 }
@@ -394,27 +406,53 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
+    // lock: the event is closed when the server stops
+    mutex_server.lock();
+
     // check if server is not started
-    if (GetType() == SocketTypeUndefined) return;
+    if (GetType() == SocketTypeUndefined) {
+        mutex_server.unlock();
+        return;
+    }
 
     // make the thread stop
     Utils::WriteEventFd(to_stop_event, 1);
 
-    WaitForStop(timeout);
+    // what to wait for
+    uint32_t number = started_amount;
+
+    mutex_server.unlock();
+
+    WaitForStopOf(number, timeout);
 }
 
 void DowowNetwork::Server::WaitForStop(int timeout) {
-    // not started
-    if (GetType() == SocketTypeUndefined) return;
+    mutex_st.lock();
+    // returns at once if not started
+    uint32_t number = started_amount;
+    mutex_st.unlock();
+
+    WaitForStopOf(number, timeout);
+}
+
+void DowowNetwork::Server::WaitForStopOf(uint32_t number, int timeout) {
+    std::unique_lock<std::mutex> __mst(mutex_st);
+
+    // it may be started anew meanwhile
+    auto is_stopped = [&]() { return stopped_amount >= number; };
 
-    // wait for stopped event
-    Utils::SelectRead(stopped_event, timeout);
+    // wait for stop
+    if (timeout < 0)
+        cond_st.wait(__mst, is_stopped);
+    else
+        cond_st.wait_for(__mst, std::chrono::seconds(timeout), is_stopped);
 }
 
 DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
-    // close the stopped eventfd
-    close(stopped_event);
+    // the thread must not outlive the server
+    if (server_thread.joinable())
+        server_thread.join();
 }
diff --git a/Server.hpp b/Server.hpp
index 6c063e8..eccfed2 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -11,7 +11,10 @@
 #include <list>
 
 #include <sys/eventfd.h>
+#include <atomic>
+#include <condition_variable>
 #include <mutex>
+#include <thread>
 
 #include "Connection.hpp"
 #include "SafeConnection.hpp"
@@ -37,7 +40,7 @@ namespace DowowNetwork {
         int32_t max_connections = -1;
 
         // socket type (undefined if server is not running)
-        uint8_t socket_type = SocketTypeUndefined; 
+        std::atomic<uint8_t> socket_type{ SocketTypeUndefined };
 
         // unix socket path
         std::string unix_socket_path;
@@ -46,10 +49,16 @@ namespace DowowNetwork {
         uint32_t tcp_socket_address = 0;
         uint16_t tcp_socket_port = 0;
 
-        //! 'stopped' event.
-        //! Occurs when the server is stopped.
-        //! Being created only when the shutdown is requested.
-        int stopped_event = -1;
+        // mutex for the amounts of starts and stops
+        std::mutex mutex_st;
+        // the server has stopped
+        std::condition_variable cond_st;
+        // the amount of times the server was started
+        uint32_t started_amount = 0;
+        // the amount of times the server has stopped
+        uint32_t stopped_amount = 0;
+        // the server thread
+        std::thread server_thread;
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
@@ -73,6 +82,17 @@ namespace DowowNetwork {
         */
         Connection* AcceptOne(uint32_t id);
 
+        //! Wait until the server stops for the given time.
+        /*!
+            \param number starts with 1
+            \param timeout in seconds, negative for no limit
+        */
+        void WaitForStopOf(uint32_t number, int timeout);
+
+        //! Start the server thread.
+        //! \warning mutex_server must be locked.
+        void StartThread();
+
         static void ServerThreadFunc(Server *server);
     public:
         /// Server constructor.
-- 
2.43.0


From 8877e850b4a9cfe96d08d0143ffdcdff1d87cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 32/41] fix: synchronise the server state that is used by
 several threads

---
 Server.cpp | 15 ++++++++++-----
 Server.hpp |  4 +++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index c522ef5..f281541 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -34,8 +34,9 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     conn->id = id;
 
     // call the handler if set
-    if (GetConnectedHandler()) {
-        (*GetConnectedHandler())(this, conn);
+    ConnectionHandler handler = GetConnectedHandler();
+    if (handler) {
+        (*handler)(this, conn);
     }
 
     // success
@@ -103,8 +104,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         s->mutex_connections.unlock();
         for (auto c : deleted_conns) {
             // call 'disconnected' handler if set
-            if (s->GetDisconnectedHandler()) {
-                (*s->GetDisconnectedHandler())(s, c);
+            ConnectionHandler handler = s->GetDisconnectedHandler();
+            if (handler) {
+                (*handler)(s, c);
             }
             // delete the connection
             delete c;
@@ -269,6 +271,7 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
 }
 
 std::string DowowNetwork::Server::GetUnixPath() {
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
     return unix_socket_path;
 }
 
@@ -336,16 +339,18 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
 }
 
 uint32_t DowowNetwork::Server::GetTcpIp() {
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
     return tcp_socket_address;
 }
 
 std::string DowowNetwork::Server::GetTcpIpString() {
     // convert the tcp socket address to string
-    in_addr addr{ htobe32(tcp_socket_address) };
+    in_addr addr{ htobe32(GetTcpIp()) };
     return inet_ntoa(addr);
 }
 
 uint16_t DowowNetwork::Server::GetTcpPort() {
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
     return tcp_socket_port;
 }
 
diff --git a/Server.hpp b/Server.hpp
index eccfed2..df26a90 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -37,7 +37,7 @@ namespace DowowNetwork {
         // mutex for the list of accepted clients
         std::mutex mutex_connections;
         // maximum amount of connected clients, negative for unlimited
-        int32_t max_connections = -1;
+        std::atomic<int32_t> max_connections{ -1 };
 
         // socket type (undefined if server is not running)
         std::atomic<uint8_t> socket_type{ SocketTypeUndefined };
@@ -122,6 +122,7 @@ namespace DowowNetwork {
         }
         /// Get the 'connected' handler.
         inline ConnectionHandler GetConnectedHandler() {
+            std::lock_guard<std::recursive_mutex> __sm(mutex_server);
             return connected_handler;
         }
         /// Set the 'disconnected' handler.
@@ -132,6 +133,7 @@ namespace DowowNetwork {
         }
         /// Get the 'disconnected' handler.
         inline ConnectionHandler GetDisconnectedHandler() {
+            std::lock_guard<std::recursive_mutex> __sm(mutex_server);
             return disconnected_handler;
         }
 
-- 
2.43.0


From 91ca2b1b912104cd4bc31db4f224fc33617b6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 33/41] fix: accept the waiting clients when the limit is
 raised

---
 Server.cpp | 44 +++++++++++++++++++++++++++-----------------
 Server.hpp |  6 ++++++
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index f281541..fa1845d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -43,40 +43,40 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     return conn;
 }
 
+bool DowowNetwork::Server::CanAccept() {
+    int32_t limit = max_connections;
+    return limit < 0 || static_cast<int32_t>(connections.size()) < limit;
+}
+
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
 
     // infinite loop
     while (true) {
-        // whether should accept new clients
-        bool accept_new = true;
-        if (s->max_connections >= 0) {
-            accept_new =
-                static_cast<int32_t>(s->connections.size()) <
-                s->max_connections;
-        }
-
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
-        // server socket
-        pollfds[0].fd = accept_new ? s->socket_fd : -1;
+        pollfd *pollfds = new pollfd[3 + s->connections.size()];
+        // server socket, if should accept new clients
+        pollfds[0].fd = s->CanAccept() ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
         // 'to_stop' event
         pollfds[1].fd = s->to_stop_event;
         pollfds[1].events = POLLIN;
+        // 'limit changed' event
+        pollfds[2].fd = s->limit_event;
+        pollfds[2].events = POLLIN;
 
         // ask all connections for a 'closed' event
         size_t i = 0;
         for (auto c : s->connections) {
-            pollfds[2 + i].fd = c->GetStoppedEvent();
-            pollfds[2 + i].events = POLLIN;
+            pollfds[3 + i].fd = c->GetStoppedEvent();
+            pollfds[3 + i].events = POLLIN;
             ++i;
         }
 
         // poll events
         int poll_res = poll(
             pollfds,
-            2 + s->connections.size(),
+            3 + s->connections.size(),
             -1);
 
         // interrupted, no event is set
@@ -94,7 +94,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN)
+            if (pollfds[3 + i++].revents & POLLIN)
                 deleted_conns.push_back(c);
         }
         // remove deleted connections, nobody will find them
@@ -122,10 +122,16 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             break;
         }
 
+        // *******************
+        // check limit changed
+        // *******************
+        if (pollfds[2].revents & POLLIN)
+            Utils::ReadEventFd(s->limit_event, 0);
+
         // ***********************
         // check if new connection
         // ***********************
-        if (pollfds[0].revents & POLLIN) {
+        if ((pollfds[0].revents & POLLIN) && s->CanAccept()) {
             // accept
             Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
@@ -186,7 +192,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 }
 
 DowowNetwork::Server::Server() {
-
+    limit_event = eventfd(0, 0);
 }
 
 void DowowNetwork::Server::StartThread() {
@@ -360,6 +366,8 @@ uint8_t DowowNetwork::Server::GetType() {
 
 void DowowNetwork::Server::SetMaxConnections(int32_t c) {
     max_connections = c;
+    // the server thread may have to accept
+    Utils::WriteEventFd(limit_event, 1);
 }
 
 int32_t DowowNetwork::Server::GetMaxConnections() {
@@ -460,4 +468,6 @@ DowowNetwork::Server::~Server() {
     // the thread must not outlive the server
     if (server_thread.joinable())
         server_thread.join();
+
+    close(limit_event);
 }
diff --git a/Server.hpp b/Server.hpp
index df26a90..f6531db 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -59,6 +59,9 @@ namespace DowowNetwork {
         uint32_t stopped_amount = 0;
         // the server thread
         std::thread server_thread;
+        //! 'limit changed' event.
+        //! Occurs when the maximum amount of clients is changed.
+        int limit_event = -1;
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
@@ -76,6 +79,9 @@ namespace DowowNetwork {
         //! Called
         ConnectionHandler disconnected_handler = 0;
 
+        //! Check if one more client can be accepted.
+        bool CanAccept();
+
         /// Accept one client.
         /*!
             \param id the id to give to the new connection
-- 
2.43.0


From 9d464a991917c6b76898f6e0cd583c11d1a41ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 34/41] fix: copies of a SafeConnection did not hold a
 reference

---
 SafeConnection.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..88a4705 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,18 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            // every copy holds a reference of its own
+            inline SafeConnection(const SafeConnection& other) : SafeConnection(other.c) {
+            }
+
+            inline SafeConnection& operator=(const SafeConnection& other) {
+                // first increase: they may be the same
+                other.c->IncreaseRefs();
+                c->DecreaseRefs();
+                c = other.c;
+                return *this;
+            }
+
             inline Connection& operator()() {
                 return *c;
             }
-- 
2.43.0


From 980cf2adfc3ceb01108ecd54cd197b1d2c35f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 35/41] fix: an interrupted UNIX connect started its time limit
 anew

---
 Client.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 5491788..4fc0803 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -11,6 +11,7 @@
 #include <sys/poll.h>
 #include <time.h>
 #include <fcntl.h>
+#include <chrono>
 #include <thread>
 #include <errno.h>
 
@@ -74,6 +75,14 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     Utils::WriteEventFd(c->connect_event, 1);
 }
 
+// Limit the time of connect() of a blocking socket.
+static void SetSendTimeout(int fd, std::chrono::nanoseconds time) {
+    // at least 1 microsecond: zero means no limit
+    int64_t us = std::chrono::duration_cast<std::chrono::microseconds>(time).count() + 1;
+    timeval limit { us / 1000000, us % 1000000 };
+    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &limit, sizeof(limit));
+}
+
 void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, int timeout) {
     // connection in progress
     std::lock_guard<std::mutex> __tsfdm(c->mutex_tsfd);
@@ -84,10 +93,18 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
     // connect, try again if interrupted
+    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(timeout);
     int connect_res;
-    do {
+    while (true) {
         connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
-    } while (connect_res == -1 && errno == EINTR);
+        if (connect_res != -1 || errno != EINTR) break;
+        // the limit is for all the attempts together
+        if (timeout > 0) {
+            auto left = deadline - std::chrono::steady_clock::now();
+            if (left <= left.zero()) break;
+            SetSendTimeout(c->temp_socket_fd, left);
+        }
+    }
 
     // fail
     if (connect_res) {
-- 
2.43.0


From 934512dc5ed5f99a63a7672e93ae88416902053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 36/41] fix: a peer that sends was dropped for silence while
 the connected handler runs

---
 Connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index fdb19f4..89df370 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -149,8 +149,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             // close, they're timed out
             // (unless something has just been received)
             uint64_t void_buf;
-            if (read(pollfds[3].fd, &void_buf, sizeof(void_buf)) > 0)
-                break;
+            if (read(pollfds[3].fd, &void_buf, sizeof(void_buf)) > 0) {
+                // they aren't silent if they are just not listened to yet
+                if (is_receiving || !Utils::SelectRead(c->socket_fd, 0))
+                    break;
+                c->RestartTimer(c->their_na_timer, c->their_na_interval);
+            }
         }
         // **********
         // push event
-- 
2.43.0


From 6d8855032a56d456cc00157cbc31fb649fa00338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 37/41] fix: a connection whose events, timers or thread cannot
 be created is not connected (it could never be stopped, or ended the process)

---
 Connection.cpp | 48 ++++++++++++++++++++++++++++++++++++++----------
 Connection.hpp |  4 +++-
 Server.cpp     |  6 ++++++
 3 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 89df370..bc72850 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -11,6 +11,7 @@
 #include <sys/eventfd.h>
 #include <sys/timerfd.h>
 #include <ctime>
+#include <system_error>
 #include <unistd.h>
 
 #include "Utils.hpp"
@@ -520,6 +521,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         background_thread->join();
         // free memory
         delete background_thread;
+        background_thread = 0;
     }
 
     // get the type
@@ -542,12 +544,6 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
             return;
     }
 
-    // reset the stopped event
-    mutex_st.lock();
-    Utils::ReadEventFd(stopped_event, 0);
-    started_amount++;
-    mutex_st.unlock();
-
     // initialize the events
     push_event = eventfd(0, 0);
     to_stop_event = eventfd(0, 0);
@@ -558,6 +554,40 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
+    // it might have been impossible so far
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+
+    // create the background thread
+    // (it waits until everything is initialized)
+    int* fds[] { &push_event, &to_stop_event, &our_sa_timer, &their_na_timer };
+    bool is_failed = stopped_event == -1;
+    for (auto fd : fds)
+        if (*fd == -1) is_failed = true;
+    try {
+        if (!is_failed)
+            background_thread = new std::thread(ConnThreadFunc, this);
+    } catch (const std::system_error&) {
+        is_failed = true;
+    }
+
+    // out of descriptors or threads: not connected
+    if (is_failed) {
+        for (auto fd : fds) {
+            if (*fd != -1) close(*fd);
+            *fd = -1;
+        }
+        close(socket_fd);
+        socket_type = SocketTypeUndefined;
+        return;
+    }
+
+    // reset the stopped event
+    mutex_st.lock();
+    Utils::ReadEventFd(stopped_event, 0);
+    started_amount++;
+    mutex_st.unlock();
+
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
@@ -583,9 +613,6 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
 
     // assign the socket
     this->socket_fd = socket_fd;
-
-    // create the background thread
-    background_thread = new std::thread(ConnThreadFunc, this);
 }
 
 void DowowNetwork::Connection::SetEvenRequestIdsPart(bool state) {
@@ -954,5 +981,6 @@ DowowNetwork::Connection::~Connection() {
     }
 
     // close the stopped eventfd
-    close(stopped_event);
+    if (stopped_event != -1)
+        close(stopped_event);
 }
diff --git a/Connection.hpp b/Connection.hpp
index db6f24d..8bbe9c3 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -134,7 +134,7 @@ namespace DowowNetwork {
         //! 'to_stop' event
         int to_stop_event = -1;
         //! 'stopped' event
-        int stopped_event = -1;
+        std::atomic<int> stopped_event{ -1 };
         //! 'not_needed' event
         int not_needed_event = -1;
         //! our still-alive timer
@@ -234,6 +234,8 @@ namespace DowowNetwork {
          *  - Resets the free request id (even/odd is not touched).
          *  - Clears the receive queue.
          *  - Starts the background thread.
+         *  - Closes the socket and stays not connected if some of the
+         *    events, the timers or the thread can't be created.
          *  \warning Not MT-Safe!
          */
         void InitializeByFD(int socket_fd);
diff --git a/Server.cpp b/Server.cpp
index fa1845d..7cea1d7 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -30,6 +30,12 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // the handlers that are not set yet
     Connection *conn = new Connection(temp_fd, false);
 
+    // couldn't be started, the socket is closed
+    if (!conn->IsConnected()) {
+        delete conn;
+        return 0;
+    }
+
     // assign the id
     conn->id = id;
 
-- 
2.43.0


From 2631156e9905248f00356013a39942f3e8034852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 38/41] fix: a held connection ends although the event to wait
 for its release cannot be created

---
 Connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index bc72850..bf48285 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -191,7 +191,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // wait until the Connection is not needed anymore
-        Utils::ReadEventFd(c->not_needed_event, -1);
+        // (look again in a second if the event couldn't be created)
+        Utils::ReadEventFd(c->not_needed_event, c->not_needed_event == -1 ? 1 : -1);
 
         // it may be referenced again, check once more
         c->mutex_cd.lock();
-- 
2.43.0


From a04807445ac725c239f51538c3bd99f412ad9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 39/41] fix: a server whose events or thread cannot be created
 is not started (it could never be stopped)

---
 Server.cpp | 60 +++++++++++++++++++++++++++++++++++++++++-------------
 Server.hpp |  8 ++++++--
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 7cea1d7..16f08a5 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -13,6 +13,7 @@
 #include <errno.h>
 
 #include <thread>
+#include <system_error>
 #include <algorithm>
 
 #include <iostream>
@@ -55,6 +56,10 @@ bool DowowNetwork::Server::CanAccept() {
 }
 
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
+    // wait until everything is set up
+    s->mutex_server.lock();
+    s->mutex_server.unlock();
+
     // free id for a new connection
     uint32_t free_conn_id = 1;
 
@@ -201,21 +206,38 @@ DowowNetwork::Server::Server() {
     limit_event = eventfd(0, 0);
 }
 
-void DowowNetwork::Server::StartThread() {
+bool DowowNetwork::Server::StartThread() {
+    // it might have been impossible so far
+    if (limit_event == -1)
+        limit_event = eventfd(0, 0);
+    if (limit_event == -1)
+        return false;
+
     // create eventfd
     to_stop_event = eventfd(0, 0);
-
-    // going to have to be stopped
-    mutex_st.lock();
-    started_amount++;
-    mutex_st.unlock();
+    if (to_stop_event == -1)
+        return false;
 
     // the previous thread has nothing left to do
     if (server_thread.joinable())
         server_thread.join();
 
     // start the thread
-    server_thread = std::thread(ServerThreadFunc, this);
+    // (it waits until everything is set up)
+    try {
+        server_thread = std::thread(ServerThreadFunc, this);
+    } catch (const std::system_error&) {
+        close(to_stop_event);
+        to_stop_event = -1;
+        return false;
+    }
+
+    // going to have to be stopped
+    mutex_st.lock();
+    started_amount++;
+    mutex_st.unlock();
+
+    return true;
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -272,13 +294,18 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
+    // start the thread
+    if (!StartThread()) {
+        // fail
+        close(socket_fd);
+        unlink(path.c_str());
+        return false;
+    }
+
     // success
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // start the thread
-    StartThread();
-
     return true;
 }
 
@@ -339,14 +366,18 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
+    // start the thread
+    if (!StartThread()) {
+        // fail
+        close(socket_fd);
+        return false;
+    }
+
     // success
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // start the thread
-    StartThread();
-
     return true;
 }
 
@@ -475,5 +506,6 @@ DowowNetwork::Server::~Server() {
     if (server_thread.joinable())
         server_thread.join();
 
-    close(limit_event);
+    if (limit_event != -1)
+        close(limit_event);
 }
diff --git a/Server.hpp b/Server.hpp
index f6531db..a19db0a 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -61,7 +61,7 @@ namespace DowowNetwork {
         std::thread server_thread;
         //! 'limit changed' event.
         //! Occurs when the maximum amount of clients is changed.
-        int limit_event = -1;
+        std::atomic<int> limit_event{ -1 };
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
@@ -97,7 +97,11 @@ namespace DowowNetwork {
 
         //! Start the server thread.
         //! \warning mutex_server must be locked.
-        void StartThread();
+        /*!
+            \return     false if some of the events or the thread
+                        can't be created.
+        */
+        bool StartThread();
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 1a4578ba59f90c8d9521df3fa7628307bac920b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:30 +0000
Subject: [PATCH 40/41] fix: connecting fails when its event or thread cannot
 be created (it hung or left the client connecting for ever)

---
 Client.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 4fc0803..ac16015 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -13,6 +13,7 @@
 #include <fcntl.h>
 #include <chrono>
 #include <thread>
+#include <system_error>
 #include <errno.h>
 
 #include <iostream>
@@ -153,7 +154,21 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
     // create event
     connect_event = eventfd(0, 0);
 
-    std::thread t(TcpThreadFunc, this, ip, port, timeout);
+    // create a thread for connection
+    std::thread t;
+    try {
+        if (connect_event != -1)
+            t = std::thread(TcpThreadFunc, this, ip, port, timeout);
+    } catch (const std::system_error&) {}
+
+    // out of descriptors or threads
+    if (!t.joinable()) {
+        if (connect_event != -1) close(connect_event);
+        connect_event = -1;
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     // read
     Utils::ReadEventFd(connect_event, -1);
@@ -204,7 +219,20 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     connect_event = eventfd(0, 0);
 
     // create a thread for connection
-    std::thread t(UnixThreadFunc, this, socket_path, timeout);
+    std::thread t;
+    try {
+        if (connect_event != -1)
+            t = std::thread(UnixThreadFunc, this, socket_path, timeout);
+    } catch (const std::system_error&) {}
+
+    // out of descriptors or threads
+    if (!t.joinable()) {
+        if (connect_event != -1) close(connect_event);
+        connect_event = -1;
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     // read
     Utils::ReadEventFd(connect_event, -1);
-- 
2.43.0


From c71b2049b24c2ec6d0a5d438b6cd58e68f998393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:29 +0000
Subject: [PATCH 41/41] fix: the even request ids went through zero after 2^31
 requests

---
 Connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index bf48285..8800176 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -708,6 +708,8 @@ DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_co
         req->SetId(req_id);
         // increase the free request ID by 2, as each side has a half of all IDs
         free_request_id += 2;
+        // the even half starts anew, zero is not an id
+        if (!free_request_id) free_request_id = 2;
     }
 
     // going to wait for the response, must not miss it
-- 
2.43.0

