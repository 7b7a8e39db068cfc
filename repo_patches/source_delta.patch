From c4d481056d9641d11a946e8b6b7d729ccf658b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 01/26] fix: include the ConstantResampler and Function headers
 in FactoryOp.cpp

The translation unit registers both operators but never included them, so it did not compile.
---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From 9eb17572b56a91e03c1ad9aca58abfe0718c15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 02/26] fix: snapshot the smoothed averages of
 RelativeStrengthIndex

The running averages and the initialized flag were neither collected nor restored, so a restored program restarted the smoothing.
---
 .../rtbot/finance/RelativeStrengthIndex.h     | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..61899e2 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,36 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+    // Serialize prevAverageGain
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    // Serialize prevAverageLoss
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+    // Deserialize prevAverageGain
+    prevAverageGain = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageGain);
+    // Deserialize prevAverageLoss
+    prevAverageLoss = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageLoss);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
-- 
2.43.0


From e4a41b6509d1121eb416f11e23b8506c6aa32ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 03/26] fix: snapshot the operators inside a Pipeline

Pipeline inherited collect/restore from Operator and lost the state of every internal operator.
---
 libs/api/include/rtbot/Pipeline.h | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..66a5616 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -36,6 +36,44 @@ struct Pipeline : public Operator<T, V> {
 
   string typeName() const override { return "Pipeline"; }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the state of the internal operators
+    size_t opsSize = this->all_op.size();
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&opsSize),
+                 reinterpret_cast<const unsigned char *>(&opsSize) + sizeof(opsSize));
+
+    for (auto &[opId, op] : this->all_op) {
+      size_t opIdSize = opId.size();
+      bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&opIdSize),
+                   reinterpret_cast<const unsigned char *>(&opIdSize) + sizeof(opIdSize));
+      bytes.insert(bytes.end(), opId.begin(), opId.end());
+
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the state of the internal operators
+    size_t opsSize = *reinterpret_cast<const size_t *>(&(*it));
+    it += sizeof(opsSize);
+
+    for (size_t i = 0; i < opsSize; i++) {
+      size_t opIdSize = *reinterpret_cast<const size_t *>(&(*it));
+      it += sizeof(opIdSize);
+      string opId(it, it + opIdSize);
+      it += opIdSize;
+
+      this->all_op.at(opId)->restore(it);
+    }
+  }
+
   void receiveData(Message<T, V> msg, string inputPort = "") override {
     if (inputPort.empty() && inputs.size() == 1)
       inputPort = inputs.begin()->first;
-- 
2.43.0


From e9f4b8d716d1df14b1105ec5acfec9773e2f7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 04/26] fix: snapshot the operators inside a Composite

Composite inherited collect/restore from Operator and lost the state of every internal operator.
---
 libs/core/include/rtbot/Composite.h | 38 +++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..581db1c 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -49,6 +49,44 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   virtual ~Composite() = default;
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the state of the internal operators
+    size_t opsSize = this->ops.size();
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&opsSize),
+                 reinterpret_cast<const unsigned char *>(&opsSize) + sizeof(opsSize));
+
+    for (auto &[opId, op] : this->ops) {
+      size_t opIdSize = opId.size();
+      bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&opIdSize),
+                   reinterpret_cast<const unsigned char *>(&opIdSize) + sizeof(opIdSize));
+      bytes.insert(bytes.end(), opId.begin(), opId.end());
+
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the state of the internal operators
+    size_t opsSize = *reinterpret_cast<const size_t *>(&(*it));
+    it += sizeof(opsSize);
+
+    for (size_t i = 0; i < opsSize; i++) {
+      size_t opIdSize = *reinterpret_cast<const size_t *>(&(*it));
+      it += sizeof(opIdSize);
+      string opId(it, it + opIdSize);
+      it += opIdSize;
+
+      this->ops.at(opId)->restore(it);
+    }
+  }
+
   string createInput(string id, size_t numPorts = 1) {
     if (this->ops.count(id) == 0 && this->input == nullptr) {
       this->input = make_shared<Input<T, V>>(id, numPorts);
-- 
2.43.0


From 662ebdadd857c22278ae72c34b0059dea01fda04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 05/26] fix: include the input buffers in the CumulativeSum
 snapshot

Its collect/restore overrides did not call the base class as every sibling does.
---
 libs/std/include/rtbot/std/CumulativeSum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/CumulativeSum.h b/libs/std/include/rtbot/std/CumulativeSum.h
index adfdefd..663583f 100644
--- a/libs/std/include/rtbot/std/CumulativeSum.h
+++ b/libs/std/include/rtbot/std/CumulativeSum.h
@@ -20,7 +20,7 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual Bytes collect() {
-    Bytes bytes;
+    Bytes bytes = Operator<T, V>::collect();
 
     // Serialize accumulated
     bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&accumulated),
@@ -30,6 +30,7 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual void restore(Bytes::const_iterator &it) {
+    Operator<T, V>::restore(it);
     // Deserialize accumulated
     accumulated = *reinterpret_cast<const V *>(&(*it));
     it += sizeof(accumulated);
-- 
2.43.0


From 89ee749508cdc49850323546a7e865a1bf51fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 06/26] fix: throw the entry operator errors in Program::init

The exceptions were constructed and discarded, so a program without its entry operator failed later with an unrelated out_of_range error, and one whose entry operator has control inputs was accepted empty.
---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From e93844cf4de8b197750f07125bc35a1b03596ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 07/26] fix: reject creating a JSON program under an id already
 in use

map::emplace silently kept the old program and reported success; the overload taking a snapshot already rejects this.
---
 libs/api/src/FactoryOp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..d78b4fd 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -443,6 +443,7 @@ string FactoryOp::createProgram(string const& id, Bytes const& bytes) {
 }
 
 string FactoryOp::createProgram(string const& id, string const& json_program) {
+  if (this->programs.count(id) > 0) throw runtime_error("Program " + id + " already exists");
   try {
     programs.emplace(id, Program(json_program));
     return "";
-- 
2.43.0


From 6029e8b6225c5f53c54fdaa9650006c9c81fceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 08/26] fix: drop the pending message buffer when a program is
 deleted

Messages buffered for a deleted program were delivered to the next program created under the same id.
---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..8153857 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 35ae7bd92c7b7f0c7a42e0ca4d8645e253232ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 09/26] fix: emit a time, not a value, from Difference when
 useOldestTime is false

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 15d7a5b606d05264302eb5c078ee46bed55246e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 10/26] fix: write the period, not the buffer size, of
 RelativeStrengthIndex to JSON

---
 libs/api/src/FactoryOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index d78b4fd..a465228 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,8 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  // the operator buffers one message more than its period
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 895fa328324fc0437cf78422ca8882c5faffc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 11/26] fix: pair each Linear coefficient with the port of the
 same number

The input map is sorted lexicographically, so with ten or more ports the coefficients were applied to the wrong inputs.
---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..2fde60e 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    // dataInputs is sorted by name (i1, i10, i2, ...), the coefficients by port number
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      auto it = this->dataInputs.find(string("i") + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From b32e0e5e43d6a4bd8d205bb7c7d4b71087645d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 12/26] fix: do not truncate Variable value and TimeShift dt to
 int when reading JSON

json::value returns the type of the default, so a default value of 0.5 became 0 and dt was limited to 32 bits.
---
 libs/api/src/FactoryOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index a465228..29153d0 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 27d16b1e90956e218abf8a4ca3e33312efc4daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 13/26] fix: honour the documented default of Join numPorts

The schema makes numPorts optional with default 2; reading the missing key of a const json is undefined behaviour.
---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 29153d0..5dfbe33 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 79b402f6836f02e759af00dc9c4d8f035a77f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 14/26] fix: require coeff in the Linear schema

The factory reads it unconditionally; a schema-valid program without it was undefined behaviour.
---
 libs/std/include/rtbot/std/Linear.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
-- 
2.43.0


From d7a0e0d6b76c8451d1d57e678a666b04c4e10e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 15/26] fix: TimeShift backwards stops at 0 and a null shift
 keeps the time

With an unsigned time type the negative branch was unreachable, so a shift below 0 wrapped around, and times=0 moved every message to time 0.
---
 libs/std/include/rtbot/std/TimeShift.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..cd472a6 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -32,10 +32,14 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    T shift = this->dt * this->times;  // wraps around when T is unsigned and times is negative
+    if ((this->dt < 0) == (this->times < 0)) {
+      out.time = out.time + shift;
+    } else {
+      // shifting back in time stops at 0
+      T back = 0 - shift;
+      out.time = (out.time > back) ? out.time - back : 0;
+    }
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 5c3d03f9ed86285bf5731c28077df061a3a18268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 16/26] fix: reject a null interval in CosineResampler and
 HermiteResampler

The emission loop never ended; ConstantResampler already rejects it.
---
 libs/std/include/rtbot/std/CosineResampler.h  | 1 +
 libs/std/include/rtbot/std/HermiteResampler.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..29e9b31 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,7 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..876445c 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,7 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
-- 
2.43.0


From 0425f47b59db781fd6ab6ec12d12f6c18356e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 17/26] fix: reject an AutoRegressive operator without
 coefficients

A buffer size of 0 means unbounded, so the first message filled memory with boundary conditions forever.
---
 libs/std/include/rtbot/std/AutoRegressive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..61886e0 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -14,6 +14,7 @@ struct AutoRegressive : public Operator<T, V> {
   AutoRegressive() = default;
 
   AutoRegressive(string const& id, vector<V> const& coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least one coefficient is required");
     this->coeff = coeff;
     this->addDataInput("i1", this->coeff.size());
     this->addOutput("o1");
-- 
2.43.0


From bd2588b98853e637cd432b460b9103fed6c5c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 18/26] fix: give the Function interpolation method its own
 JSON key

It shared the key "type" with the operator type, so every Function program was rejected and the method was lost when writing.
---
 libs/api/src/FactoryOp.cpp             | 5 +++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 5dfbe33..42d0a06 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -418,7 +418,8 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array},
+           {"interpolationType", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -427,7 +428,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..698f06b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolationType:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From 91e6612bf1c8a51cb4c4897d1b6c8014019cd44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 19/26] fix: keep useOldestTime of Difference in its JSON form

---
 libs/api/src/FactoryOp.cpp               | 4 ++--
 libs/std/include/rtbot/std/Difference.md | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 42d0a06..9e65245 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -353,12 +353,12 @@ void from_json(const json& j, Power<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const Difference<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"useOldestTime", p.getUseOldestTime()}};
 }
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
diff --git a/libs/std/include/rtbot/std/Difference.md b/libs/std/include/rtbot/std/Difference.md
index 557feb1..deaf3c9 100644
--- a/libs/std/include/rtbot/std/Difference.md
+++ b/libs/std/include/rtbot/std/Difference.md
@@ -13,6 +13,10 @@ jsonschema:
     id:
       type: string
       description: The id of the operator
+    useOldestTime:
+      type: boolean
+      default: true
+      description: When false the difference is emitted with the time of the oldest message in the buffer instead of the newest one.
   required: ["id"]
 ---
 
-- 
2.43.0


From 4c10260dbc45849354f38c8f76675b7828de6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 20/26] fix: apply the AutoRegressive coefficients from the
 newest output to the oldest

The documentation, and FiniteImpulseResponse, pair the first coefficient with the most recent value.
---
 libs/std/include/rtbot/std/AutoRegressive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index 61886e0..3763e58 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -61,7 +61,7 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From a4540901f135d784f1452727a57f6d168097ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 21/26] fix: keep the running sum of the Variable and
 AutoRegressive ports in step with their buffers

getDataInputSum returned a stale value because messages were added or removed without updating the sum.
---
 libs/std/include/rtbot/std/AutoRegressive.h |  7 ++++++-
 libs/std/include/rtbot/std/Variable.h       | 17 +++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index 3763e58..ba5b9b3 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -34,6 +34,7 @@ struct AutoRegressive : public Operator<T, V> {
         this->dataInputs.find(inputPort)->second.push_back(Message<T, V>(0, 0));  // boundary conditions=0
       // n + 1 added, so that processData can get the last one as a recipient
       this->dataInputs.find(inputPort)->second.push_back(msg);
+      this->dataInputs.find(inputPort)->second.setSum(this->dataInputs.find(inputPort)->second.getSum() + msg.value);
     } else
       throw runtime_error(typeName() + ": " + inputPort + " refers to a non existing input port");
   }
@@ -46,9 +47,13 @@ struct AutoRegressive : public Operator<T, V> {
     else
       throw runtime_error(typeName() + " : more than 1 input port found");
     auto toEmit = processData();
+    Message<T, V> out = toEmit.find("o1")->second.at(0);
+    this->dataInputs.find(inputPort)->second.setSum(this->dataInputs.find(inputPort)->second.getSum() -
+                                                    this->dataInputs.find(inputPort)->second.front().value -
+                                                    this->dataInputs.find(inputPort)->second.back().value + out.value);
     this->dataInputs.find(inputPort)->second.pop_front();
     this->dataInputs.find(inputPort)->second.pop_back();
-    this->dataInputs.find(inputPort)->second.push_back(toEmit.find("o1")->second.at(0));
+    this->dataInputs.find(inputPort)->second.push_back(out);
     return this->emit(toEmit);
   }
 
diff --git a/libs/std/include/rtbot/std/Variable.h b/libs/std/include/rtbot/std/Variable.h
index 40ec486..a98ac6c 100644
--- a/libs/std/include/rtbot/std/Variable.h
+++ b/libs/std/include/rtbot/std/Variable.h
@@ -66,6 +66,11 @@ class Variable : public Operator<T, V> {
   V value;
   bool initialized;
 
+  void popFront(typename Operator<T, V>::Input &input) {
+    input.setSum(input.getSum() - input.front().value);
+    input.pop_front();
+  }
+
   OperatorMessage<T, V> query() {
     OperatorMessage<T, V> outputMsgs;
 
@@ -96,7 +101,7 @@ class Variable : public Operator<T, V> {
       PortMessage<T, V> v;
       v.push_back(out);
       outputMsgs.emplace("o1", v);
-      this->controlInputs.find(controlPort)->second.pop_front();
+      this->popFront(this->controlInputs.find(controlPort)->second);
       return outputMsgs;
     } else if (queryTime >= this->getDataInputMessage(inputPort, 0).time) {
       initialized = true;
@@ -107,7 +112,7 @@ class Variable : public Operator<T, V> {
         PortMessage<T, V> v;
         v.push_back(out);
         outputMsgs.emplace("o1", v);
-        this->controlInputs.find(controlPort)->second.pop_front();
+        this->popFront(this->controlInputs.find(controlPort)->second);
         return outputMsgs;
       }
       size_t index = 0;
@@ -120,7 +125,7 @@ class Variable : public Operator<T, V> {
           PortMessage<T, V> v;
           v.push_back(out);
           outputMsgs.emplace("o1", v);
-          this->controlInputs.find(controlPort)->second.pop_front();
+          this->popFront(this->controlInputs.find(controlPort)->second);
           return outputMsgs;
         } else if (queryTime == this->getDataInputMessage(inputPort, index + 1).time) {
           Message<T, V> out;
@@ -129,11 +134,11 @@ class Variable : public Operator<T, V> {
           PortMessage<T, V> v;
           v.push_back(out);
           outputMsgs.emplace("o1", v);
-          this->controlInputs.find(controlPort)->second.pop_front();
-          this->dataInputs.find(inputPort)->second.pop_front();
+          this->popFront(this->controlInputs.find(controlPort)->second);
+          this->popFront(this->dataInputs.find(inputPort)->second);
           return outputMsgs;
         } else {
-          this->dataInputs.find(inputPort)->second.pop_front();
+          this->popFront(this->dataInputs.find(inputPort)->second);
         }
       }
     } else if (queryTime < this->getDataInputMessage(inputPort, 0).time && this->initialized)
-- 
2.43.0


From 1bd3020b871fb8151f8dc275b705f8e614571c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 22/26] fix: consume the message buffer even when processing it
 throws

One message the program rejects stayed in the buffer, so every later call processed the same messages again and failed again.
---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 8153857..68ebc14 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first: they must not be processed again if the program throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // take the messages out first: they must not be processed again if the program throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From 57ffb70b5f4ca2b296a67c3c7f93e3bdb97b7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 23/26] fix: report an unknown program in processMessageMap as
 every other entry point does

---
 libs/api/include/rtbot/FactoryOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 68ebc14..eb44769 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -120,14 +120,14 @@ class FactoryOp {
   ProgramMessage<uint64_t, double> processMessageMap(string const& apId,
                                                      const OperatorMessage<uint64_t, double>& messagesMap) {
     auto it = programs.find(apId);
-    if (it == programs.end()) return {};
+    if (it == programs.end()) throw runtime_error("Program " + apId + " was not found");
     return it->second.receive(messagesMap);
   }
 
   ProgramMessage<uint64_t, double> processMessageMapDebug(string const& apId,
                                                           const OperatorMessage<uint64_t, double>& messagesMap) {
     auto it = programs.find(apId);
-    if (it == programs.end()) return {};
+    if (it == programs.end()) throw runtime_error("Program " + apId + " was not found");
     return it->second.receiveDebug(messagesMap);
   }
 };
-- 
2.43.0


From fe276e97b1a9d83b17d0f2464a3d88cb3d8c69a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 24/26] fix: HermiteResampler goes through the first interval
 only once

---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 876445c..3ff896f 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -84,6 +84,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // the first group goes through [0,1] only once, even when nothing falls into it
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From 360edb450ad43608e8da8ff80826a10b2daea598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 25/26] fix: reject a program or pipeline with duplicated
 operator ids

---
 libs/api/src/Pipeline.cpp | 1 +
 libs/api/src/Program.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..2e15aba 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -42,6 +42,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
       it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      if (!it.second) throw runtime_error("Duplicated operator id " + x.at("id").get<string>());
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..81888e4 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -52,6 +52,7 @@ void Program::init() {
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
     it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    if (!it.second) throw runtime_error("Duplicated operator id " + x.at("id").get<string>());
   }
 
   // connections
-- 
2.43.0


From ae173e669b0f0d13346d6074237e48ea95014810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 26/26] fix: report a missing operator or connection key
 instead of reading past the JSON object

---
 libs/api/src/FactoryOp.cpp | 74 +++++++++++++++++++-------------------
 libs/api/src/Pipeline.cpp  |  4 +--
 libs/api/src/Program.cpp   |  4 +--
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 9e65245..2acd986 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", size_t(2)));
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
+  p = Difference<T, V>(j.at("id").get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -389,7 +389,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -409,7 +409,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -425,10 +425,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
+  for (const auto& point : j.at("points")) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolationType", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index 2e15aba..10fb3ac 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
       if (!it.second) throw runtime_error("Duplicated operator id " + x.at("id").get<string>());
     }
 
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 81888e4..3de788f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     if (!it.second) throw runtime_error("Duplicated operator id " + x.at("id").get<string>());
   }
 
-- 
2.43.0

