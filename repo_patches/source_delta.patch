From ce36d7a77dd368e40c1a921010ef4c831b37fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 001/107] fix: accept perceptions that declare an effect
 semantic scheme

The HJIF conformance check rejected every document whose perceptions carry an
effect_semantic_scheme, whatever its value, so that a document written by
IOJson::writeFile could not be read back.
---
 source/IOHaptics/src/IOJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..970f77a 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -281,7 +281,7 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   // Check the URN
   // TODO
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN && !URICheck(semanticSchemeURN.value(), true)) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From 25142e1446bd58ba6f119d01546b548e398c769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 002/107] fix: do not read before the start of an all-zero
 wavelet stream

bytes2bits and base642bits tested the value at index -1 before the index when a
stream held only zero bits, so that out.at() threw std::out_of_range.
---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 970f77a..297c228 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
-- 
2.43.0


From d2e8b7639d061f25eb9863cad25f097a1d1cfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 003/107] fix: refuse HJIF files whose top-level fields have
 the wrong type

Only the presence of version, profile, level, date and description was checked
before they were read as strings and integers (undefined in rapidjson).
---
 source/IOHaptics/src/IOJson.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 297c228..0ca771c 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -636,9 +636,12 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   if (!schemaConformanceCheck(jsonTree, filePath)) {
     return false;
   }
-  if (!(jsonTree.HasMember("version") && jsonTree.HasMember("profile") &&
-        jsonTree.HasMember("level") && jsonTree.HasMember("date") &&
-        jsonTree.HasMember("description") && jsonTree.HasMember("timescale") &&
+  if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
+        jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
+        jsonTree.HasMember("level") && jsonTree["level"].IsUint() &&
+        jsonTree.HasMember("date") && jsonTree["date"].IsString() &&
+        jsonTree.HasMember("description") && jsonTree["description"].IsString() &&
+        jsonTree.HasMember("timescale") &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
         jsonTree.HasMember("syncs") && jsonTree["syncs"].IsArray())) {
-- 
2.43.0


From fc8a28d513c43280f03e092f8551fbb13a8fecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 004/107] fix: skip library and timeline effects without a
 usable id or position

Library effects of type Basis were read without checking their id, Composite
effects without checking their position.
---
 source/IOHaptics/src/IOJson.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 0ca771c..f57b304 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -791,20 +791,13 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
-    if (effectType == types::EffectType::Reference) {
-      if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
-        std::cerr << "Missing or invalid effect id" << std::endl;
-        continue;
-      }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
-    } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
+    if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
+      std::cerr << "Missing or invalid effect id" << std::endl;
+      continue;
+    }
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
     }
 
     auto effectId = jsonEffect["id"].GetInt();
@@ -1028,6 +1021,10 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       }
     }
 
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
+    }
     auto position = jsonEffect["position"].GetInt();
     types::Effect effect(position, effectType);
     if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
-- 
2.43.0


From 9bd18da541a5d0c0bff024ed2f018aa0fd229691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 005/107] fix: check the type of keyframes, wavelet_stream and
 body_part_mask

They were read as an array, a string and an unsigned integer without being one
(undefined in rapidjson) in library effects, wavelet effects and channels.
---
 source/IOHaptics/src/IOJson.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index f57b304..2723cb7 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -817,7 +817,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto semantic = std::string(jsonEffect["semantic_keywords"].GetString());
       effect.setSemantic(semantic);
     }
-    if (jsonEffect.HasMember("keyframes")) {
+    if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
 
@@ -852,7 +852,7 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
       std::cerr << "Missing or invalid channel mixing coefficient" << std::endl;
       continue;
     }
-    if (!IOJsonPrimitives::hasNumber(jsonChannel, "body_part_mask")) {
+    if (!IOJsonPrimitives::hasUint(jsonChannel, "body_part_mask")) {
       std::cerr << "Missing or invalid channel body part mask" << std::endl;
       continue;
     }
@@ -1014,8 +1014,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
         continue;
       }
       if (band.getBandType() == types::BandType::WaveletWave) {
-        if (!jsonEffect.HasMember("wavelet_stream")) {
-          std::cerr << "Missing wavelet_stream" << std::endl;
+        if (!jsonEffect.HasMember("wavelet_stream") || !jsonEffect["wavelet_stream"].IsString()) {
+          std::cerr << "Missing or invalid wavelet_stream" << std::endl;
           continue;
         }
       }
@@ -1045,7 +1045,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
-    if (jsonEffect.HasMember("wavelet_stream")) {
+    if (jsonEffect.HasMember("wavelet_stream") && jsonEffect["wavelet_stream"].IsString()) {
       loadingSuccess = loadingSuccess && loadBitstream(jsonEffect["wavelet_stream"], effect);
     }
 
-- 
2.43.0


From 2d26a43d4b5844044b7f8838af13caf1b56877a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 006/107] fix: do not abort on unknown keywords in HJIF files

An unknown modality, effect, band, curve, avatar or actuator type, base signal or
body part name made loadFile throw std::out_of_range. Items with an invalid
required keyword are now skipped and invalid optional keywords ignored, like
every other invalid field.
---
 source/IOHaptics/src/IOJson.cpp | 80 ++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 17 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 2723cb7..23a5af5 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -713,8 +713,13 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
     auto perceptionId = jsonPerception["id"].GetInt();
     auto perceptionAvatarId = jsonPerception["avatar_id"].GetInt();
     const auto *perceptionDescription = jsonPerception["description"].GetString();
-    auto perceptionPerceptionModality =
-        types::stringToPerceptionModality.at(jsonPerception["perception_modality"].GetString());
+    auto perceptionModalityIt =
+        types::stringToPerceptionModality.find(jsonPerception["perception_modality"].GetString());
+    if (perceptionModalityIt == types::stringToPerceptionModality.end()) {
+      std::cerr << "Missing or invalid perception modality" << std::endl;
+      continue;
+    }
+    auto perceptionPerceptionModality = perceptionModalityIt->second;
 
     haptics::types::Perception perception(perceptionId, perceptionAvatarId, perceptionDescription,
                                           perceptionPerceptionModality);
@@ -790,7 +795,12 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       continue;
     }
 
-    auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
+    auto effectTypeIt = types::stringToEffectType.find(jsonEffect["effect_type"].GetString());
+    if (effectTypeIt == types::stringToEffectType.end()) {
+      std::cerr << "Missing or invalid effect type" << std::endl;
+      continue;
+    }
+    auto effectType = effectTypeIt->second;
     if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
       std::cerr << "Missing or invalid effect id" << std::endl;
       continue;
@@ -809,8 +819,12 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       effect.setPhase(phase);
     }
     if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
-      auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
-      effect.setBaseSignal(baseSignal);
+      auto baseSignal = types::stringToBaseSignal.find(jsonEffect["base_signal"].GetString());
+      if (baseSignal != types::stringToBaseSignal.end()) {
+        effect.setBaseSignal(baseSignal->second);
+      } else {
+        std::cerr << "Invalid effect base signal" << std::endl;
+      }
     }
     effect.setId(effectId);
     if (jsonEffect.HasMember("semantic_keywords") && jsonEffect["semantic_keywords"].IsString()) {
@@ -888,9 +902,14 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
     std::vector<std::string> bodyPartTargetString;
     if (IOJsonPrimitives::getStringArray(jsonChannel, "body_part_target", bodyPartTargetString)) {
       std::vector<types::BodyPartTarget> bodyPartTarget;
-      std::transform(bodyPartTargetString.begin(), bodyPartTargetString.end(),
-                     std::back_inserter(bodyPartTarget),
-                     [](const std::string &str) { return types::stringToBodyPartTarget.at(str); });
+      for (const auto &str : bodyPartTargetString) {
+        auto target = types::stringToBodyPartTarget.find(str);
+        if (target != types::stringToBodyPartTarget.end()) {
+          bodyPartTarget.push_back(target->second);
+        } else {
+          std::cerr << "Invalid channel body part target" << std::endl;
+        }
+      }
       channel.setBodyPartTarget(bodyPartTarget);
     }
 
@@ -959,15 +978,24 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
       continue;
     }
 
-    types::BandType bandType = types::stringToBandType.at(jsonBand["band_type"].GetString());
+    auto bandTypeIt = types::stringToBandType.find(jsonBand["band_type"].GetString());
+    if (bandTypeIt == types::stringToBandType.end()) {
+      std::cerr << "Missing or invalid band type" << std::endl;
+      continue;
+    }
+    types::BandType bandType = bandTypeIt->second;
     int lowerLimit = jsonBand["lower_frequency_limit"].GetInt();
     int upperLimit = jsonBand["upper_frequency_limit"].GetInt();
 
     types::Band band(bandType, lowerLimit, upperLimit);
 
     if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString()) {
-      types::CurveType curveType = types::stringToCurveType.at(jsonBand["curve_type"].GetString());
-      band.setCurveType(curveType);
+      auto curveType = types::stringToCurveType.find(jsonBand["curve_type"].GetString());
+      if (curveType != types::stringToCurveType.end()) {
+        band.setCurveType(curveType->second);
+      } else {
+        std::cerr << "Invalid curve type" << std::endl;
+      }
     }
     if (bandType == types::BandType::WaveletWave && jsonBand.HasMember("block_length") &&
         jsonBand["block_length"].IsInt()) {
@@ -998,7 +1026,12 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       continue;
     }
 
-    auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
+    auto effectTypeIt = types::stringToEffectType.find(jsonEffect["effect_type"].GetString());
+    if (effectTypeIt == types::stringToEffectType.end()) {
+      std::cerr << "Missing or invalid effect type" << std::endl;
+      continue;
+    }
+    auto effectType = effectTypeIt->second;
     if (effectType == types::EffectType::Reference) {
       if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
         std::cerr << "Missing or invalid effect id" << std::endl;
@@ -1032,8 +1065,12 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       effect.setPhase(phase);
     }
     if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
-      auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
-      effect.setBaseSignal(baseSignal);
+      auto baseSignal = types::stringToBaseSignal.find(jsonEffect["base_signal"].GetString());
+      if (baseSignal != types::stringToBaseSignal.end()) {
+        effect.setBaseSignal(baseSignal->second);
+      } else {
+        std::cerr << "Invalid effect base signal" << std::endl;
+      }
     }
     if (jsonEffect.HasMember("id") && jsonEffect["id"].IsInt()) {
       effect.setId(jsonEffect["id"].GetInt());
@@ -1076,7 +1113,12 @@ auto IOJson::loadAvatars(const rapidjson::Value &jsonAvatars, types::Haptics &ha
     }
     auto avatarId = jsonAvatar["id"].GetInt();
     auto lod = jsonAvatar["lod"].GetInt();
-    auto type = types::stringToAvatarType.at(jsonAvatar["type"].GetString());
+    auto typeIt = types::stringToAvatarType.find(jsonAvatar["type"].GetString());
+    if (typeIt == types::stringToAvatarType.end()) {
+      std::cerr << "Missing or invalid avatar type" << std::endl;
+      continue;
+    }
+    auto type = typeIt->second;
 
     types::Avatar avatar(avatarId, lod, type);
 
@@ -1156,8 +1198,12 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString()) {
-      referenceDevice.setType(
-          types::stringToActuatorType.at(jsonReferenceDevice["type"].GetString()));
+      auto type = types::stringToActuatorType.find(jsonReferenceDevice["type"].GetString());
+      if (type != types::stringToActuatorType.end()) {
+        referenceDevice.setType(type->second);
+      } else {
+        std::cerr << "Invalid reference device type" << std::endl;
+      }
     }
     perception.addReferenceDevice(referenceDevice);
   }
-- 
2.43.0


From 90a3e9cbc5e83ce0899c52b92badea147cd358ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 007/107] fix: treat HJIF numbers beyond the float range as
 invalid

They became infinities, which no JSON writer can write back: IOJson::writeFile
silently stopped in the middle of the document.
---
 source/IOHaptics/include/IOJsonPrimitives.h |  1 +
 source/IOHaptics/src/IOJson.cpp             | 28 ++++++++++-----------
 source/IOHaptics/src/IOJsonPrimitives.cpp   | 10 +++++++-
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/source/IOHaptics/include/IOJsonPrimitives.h b/source/IOHaptics/include/IOJsonPrimitives.h
index 31e8d91..3d4350e 100644
--- a/source/IOHaptics/include/IOJsonPrimitives.h
+++ b/source/IOHaptics/include/IOJsonPrimitives.h
@@ -63,6 +63,7 @@ public:
   [[nodiscard]] static auto
   hasNumber(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
             const char *valueKey) -> bool;
+  [[nodiscard]] static auto isFloat(const rapidjson::Value &jsonValue) -> bool;
   [[nodiscard]] static auto
   hasArray(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject, const char *valueKey)
       -> bool;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 23a5af5..168f7df 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -814,7 +814,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     auto position = jsonEffect["position"].GetInt();
 
     types::Effect effect(position, effectType);
-    if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
+    if (jsonEffect.HasMember("phase") && IOJsonPrimitives::isFloat(jsonEffect["phase"])) {
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
@@ -1060,7 +1060,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
     auto position = jsonEffect["position"].GetInt();
     types::Effect effect(position, effectType);
-    if (jsonEffect.HasMember("phase") && jsonEffect["phase"].IsNumber()) {
+    if (jsonEffect.HasMember("phase") && IOJsonPrimitives::isFloat(jsonEffect["phase"])) {
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
@@ -1157,44 +1157,44 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
       referenceDevice.setBodyPartMask(jsonReferenceDevice["body_part_mask"].GetUint());
     }
     if (jsonReferenceDevice.HasMember("maximum_frequency") &&
-        jsonReferenceDevice["maximum_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_frequency"])) {
       referenceDevice.setMaximumFrequency(jsonReferenceDevice["maximum_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("minimum_frequency") &&
-        jsonReferenceDevice["minimum_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["minimum_frequency"])) {
       referenceDevice.setMinimumFrequency(jsonReferenceDevice["minimum_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("resonance_frequency") &&
-        jsonReferenceDevice["resonance_frequency"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["resonance_frequency"])) {
       referenceDevice.setResonanceFrequency(jsonReferenceDevice["resonance_frequency"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_amplitude") &&
-        jsonReferenceDevice["maximum_amplitude"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_amplitude"])) {
       referenceDevice.setMaximumAmplitude(jsonReferenceDevice["maximum_amplitude"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("impedance") && jsonReferenceDevice["impedance"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("impedance") && IOJsonPrimitives::isFloat(jsonReferenceDevice["impedance"])) {
       referenceDevice.setImpedance(jsonReferenceDevice["impedance"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_voltage") &&
-        jsonReferenceDevice["maximum_voltage"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_voltage"])) {
       referenceDevice.setMaximumVoltage(jsonReferenceDevice["maximum_voltage"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_current") &&
-        jsonReferenceDevice["maximum_current"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_current"])) {
       referenceDevice.setMaximumCurrent(jsonReferenceDevice["maximum_current"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("maximum_displacement") &&
-        jsonReferenceDevice["maximum_displacement"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonReferenceDevice["maximum_displacement"])) {
       referenceDevice.setMaximumDisplacement(
           jsonReferenceDevice["maximum_displacement"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("weight") && jsonReferenceDevice["weight"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("weight") && IOJsonPrimitives::isFloat(jsonReferenceDevice["weight"])) {
       referenceDevice.setWeight(jsonReferenceDevice["weight"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("size") && jsonReferenceDevice["size"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("size") && IOJsonPrimitives::isFloat(jsonReferenceDevice["size"])) {
       referenceDevice.setSize(jsonReferenceDevice["size"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("custom") && jsonReferenceDevice["custom"].IsNumber()) {
+    if (jsonReferenceDevice.HasMember("custom") && IOJsonPrimitives::isFloat(jsonReferenceDevice["custom"])) {
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
     if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString()) {
@@ -1225,7 +1225,7 @@ auto IOJson::loadKeyframes(const rapidjson::Value &jsonKeyframes, types::Effect
       relativePosition = jsonKeyframe["relative_position"].GetInt();
     }
     if (jsonKeyframe.HasMember("amplitude_modulation") &&
-        jsonKeyframe["amplitude_modulation"].IsNumber()) {
+        IOJsonPrimitives::isFloat(jsonKeyframe["amplitude_modulation"])) {
       amplitudeModulation = jsonKeyframe["amplitude_modulation"].GetFloat();
     }
     if (jsonKeyframe.HasMember("frequency_modulation") &&
diff --git a/source/IOHaptics/src/IOJsonPrimitives.cpp b/source/IOHaptics/src/IOJsonPrimitives.cpp
index e5a26ce..c30dc17 100644
--- a/source/IOHaptics/src/IOJsonPrimitives.cpp
+++ b/source/IOHaptics/src/IOJsonPrimitives.cpp
@@ -33,6 +33,9 @@
 
 #include <IOHaptics/include/IOJsonPrimitives.h>
 
+#include <cmath>
+#include <limits>
+
 #if defined(_MSC_VER)
 #pragma warning(push)
 #pragma warning(disable : 26812)
@@ -67,7 +70,12 @@ IOJsonPrimitives::hasString(const rapidjson::GenericObject<true, rapidjson::Valu
 [[nodiscard]] auto
 IOJsonPrimitives::hasNumber(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
                             const char *valueKey) -> bool {
-  return jsonObject.HasMember(valueKey) && jsonObject[valueKey].IsNumber();
+  return jsonObject.HasMember(valueKey) && isFloat(jsonObject[valueKey]);
+}
+
+[[nodiscard]] auto IOJsonPrimitives::isFloat(const rapidjson::Value &jsonValue) -> bool {
+  return jsonValue.IsNumber() &&
+         std::abs(jsonValue.GetDouble()) <= static_cast<double>(std::numeric_limits<float>::max());
 }
 
 [[nodiscard]] auto
-- 
2.43.0


From 9f67280702a20bf05911369bdc61b43babc2cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 008/107] fix: do not wrap HJIF integers that do not fit their
 field

A level of 257 was accepted as level 1, vector components and unit exponents
were reduced modulo 256. Such values are now handled like values of the wrong
type.
---
 source/IOHaptics/include/IOJsonPrimitives.h |  3 +++
 source/IOHaptics/src/IOJson.cpp             | 18 +++++-------------
 source/IOHaptics/src/IOJsonPrimitives.cpp   | 13 ++++++++++---
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/source/IOHaptics/include/IOJsonPrimitives.h b/source/IOHaptics/include/IOJsonPrimitives.h
index 3d4350e..cb6e9d4 100644
--- a/source/IOHaptics/include/IOJsonPrimitives.h
+++ b/source/IOHaptics/include/IOJsonPrimitives.h
@@ -55,6 +55,9 @@ public:
   hasInt(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject, const char *valueKey)
       -> bool;
   [[nodiscard]] static auto
+  hasInt8(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject, const char *valueKey)
+      -> bool;
+  [[nodiscard]] static auto
   hasUint(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject, const char *valueKey)
       -> bool;
   [[nodiscard]] static auto
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 168f7df..3d564cd 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -39,6 +39,7 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 
@@ -639,6 +640,7 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
         jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
         jsonTree.HasMember("level") && jsonTree["level"].IsUint() &&
+        jsonTree["level"].GetUint() <= std::numeric_limits<uint8_t>::max() &&
         jsonTree.HasMember("date") && jsonTree["date"].IsString() &&
         jsonTree.HasMember("description") && jsonTree["description"].IsString() &&
         jsonTree.HasMember("timescale") &&
@@ -726,11 +728,10 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
     if (jsonPerception.HasMember("priority") && jsonPerception["priority"].IsInt()) {
       perception.setPriority(jsonPerception["priority"].GetInt());
     }
-    if (jsonPerception.HasMember("unit_exponent") && jsonPerception["unit_exponent"].IsInt()) {
+    if (IOJsonPrimitives::hasInt8(jsonPerception, "unit_exponent")) {
       perception.setUnitExponent(jsonPerception["unit_exponent"].GetInt());
     }
-    if (jsonPerception.HasMember("perception_unit_exponent") &&
-        jsonPerception["perception_unit_exponent"].IsInt()) {
+    if (IOJsonPrimitives::hasInt8(jsonPerception, "perception_unit_exponent")) {
       perception.setPerceptionUnitExponent(jsonPerception["perception_unit_exponent"].GetInt());
     }
     loadingSuccess = loadingSuccess && loadLibrary(jsonPerception["effect_library"], perception);
@@ -1253,16 +1254,7 @@ auto IOJson::loadBitstream(const rapidjson::Value &jsonBitstream, types::Effect
 }
 
 auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vector) -> bool {
-  if (!(jsonVector.IsObject() && jsonVector.HasMember("X") && jsonVector["X"].IsInt() &&
-        jsonVector.HasMember("Y") && jsonVector["Y"].IsInt() && jsonVector.HasMember("Z") &&
-        jsonVector["Z"].IsInt())) {
-    return false;
-  }
-
-  vector = types::Vector(static_cast<int8_t>(jsonVector["X"].GetInt()),
-                         static_cast<int8_t>(jsonVector["Y"].GetInt()),
-                         static_cast<int8_t>(jsonVector["Z"].GetInt()));
-  return true;
+  return IOJsonPrimitives::getVector(jsonVector, vector);
 }
 
 auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
diff --git a/source/IOHaptics/src/IOJsonPrimitives.cpp b/source/IOHaptics/src/IOJsonPrimitives.cpp
index c30dc17..f32fef8 100644
--- a/source/IOHaptics/src/IOJsonPrimitives.cpp
+++ b/source/IOHaptics/src/IOJsonPrimitives.cpp
@@ -55,6 +55,14 @@ IOJsonPrimitives::hasInt(const rapidjson::GenericObject<true, rapidjson::Value>
   return jsonObject.HasMember(valueKey) && jsonObject[valueKey].IsInt();
 }
 
+[[nodiscard]] auto
+IOJsonPrimitives::hasInt8(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
+                          const char *valueKey) -> bool {
+  return hasInt(jsonObject, valueKey) &&
+         jsonObject[valueKey].GetInt() >= std::numeric_limits<int8_t>::min() &&
+         jsonObject[valueKey].GetInt() <= std::numeric_limits<int8_t>::max();
+}
+
 [[nodiscard]] auto
 IOJsonPrimitives::hasUint(const rapidjson::GenericObject<true, rapidjson::Value> &jsonObject,
                           const char *valueKey) -> bool {
@@ -86,9 +94,8 @@ IOJsonPrimitives::hasArray(const rapidjson::GenericObject<true, rapidjson::Value
 
 [[nodiscard]] auto IOJsonPrimitives::getVector(const rapidjson::Value &jsonValue,
                                                haptics::types::Vector &output) -> bool {
-  if (!(jsonValue.IsObject() && jsonValue.HasMember("X") && jsonValue["X"].IsInt() &&
-        jsonValue.HasMember("Y") && jsonValue["Y"].IsInt() && jsonValue.HasMember("Z") &&
-        jsonValue["Z"].IsInt())) {
+  if (!(jsonValue.IsObject() && hasInt8(jsonValue.GetObject(), "X") &&
+        hasInt8(jsonValue.GetObject(), "Y") && hasInt8(jsonValue.GetObject(), "Z"))) {
     return false;
   }
 
-- 
2.43.0


From be0e351c0812fe38c116a3a27160e03c583afb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 009/107] fix: let the arithmetic coder produce an empty stream

When every output bit is zero the trailing-zero removal indexed before the
start of the stream and threw std::out_of_range.
---
 source/Spiht/src/ArithEnc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From fc0a6ff4a16a66c379b7b54b7a63444e53adbb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 010/107] fix: compute the wavelet block length with the
 timescale of the experience

transformBand assumed millisecond ticks: with any other timescale the number
of samples per block was wrong and the decoded signal was noise.
---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..b42febe 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -64,8 +64,8 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  auto bl = (int)((double)band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
+                  (double)timescale);
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 64c071c6954f4f9aa7fb65d6051b3f6b1c82a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 011/107] fix: keep the position of wavelet blocks when
 decoding a band

transformBand placed the blocks back to back from time zero, wherever the
effects of the band were.
---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index b42febe..0c5a68b 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -77,8 +77,7 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
     scalar /= pow(2, (double)bits);
     Effect newEffect;
-    newEffect.setPosition(
-        (int)((double)b * (double)bl * (double)timescale / (double)band.getUpperFrequencyLimit()));
+    newEffect.setPosition(effect.getPosition());
     auto block_time = std::vector<double>();
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
     newEffect.setWaveletSamples(block_time);
-- 
2.43.0


From 6224cdd5c412b0ce61f6a5313c6e752a70039e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 012/107] fix: decode wavelet bands at the right scale and
 without writing past the signal

decodeBand used effect positions (ticks) as sample indices, which wrote outside
the signal for most timescales, and did not undo the quantiser scaling.
---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 0c5a68b..993b676 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -42,7 +42,7 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
   size_t numBlocks = band.getEffectsSize();
   int bl = band.getBlockLength().value() * band.getUpperFrequencyLimit() / timescale;
   int dwtlevel = (int)log2((double)bl / 4);
-  std::vector<double> sig_rec(numBlocks * bl, 0);
+  std::vector<double> sig_rec;
 
   for (uint32_t b = 0; b < numBlocks; b++) {
     Effect effect = band.getEffectAt((int)b);
@@ -52,8 +52,14 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
     std::vector<double> block_time(bl);
+    scalar /= pow(2, (double)bits);
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    auto start = (size_t)((double)effect.getPosition() * (double)band.getUpperFrequencyLimit() /
+                          (double)timescale);
+    if (sig_rec.size() < start + block_time.size()) {
+      sig_rec.resize(start + block_time.size(), 0);
+    }
+    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + (long long)start);
   }
   return sig_rec;
 }
-- 
2.43.0


From 8b4eab55a3ff18f66b9683232f1bc56c5f285a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 013/107] fix: do not allocate bits to silent wavelet blocks

On a silent block the allocation kept choosing the first band, past the maximum
of 15 bits, which overflowed the shift in the quantiser.
---
 source/Encoder/src/WaveletEncoder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/Encoder/src/WaveletEncoder.cpp b/source/Encoder/src/WaveletEncoder.cpp
index 60a2550..b76434b 100644
--- a/source/Encoder/src/WaveletEncoder.cpp
+++ b/source/Encoder/src/WaveletEncoder.cpp
@@ -104,6 +104,13 @@ void WaveletEncoder::encodeBlock(std::vector<double> &block_time, int bitbudget,
   bitwavmax.reserve(spiht::WAVMAXLENGTH);
   maximumWaveletCoefficient(block_dwt, qwavmax, bitwavmax);
 
+  if (qwavmax == 0) {
+    // silent block: nothing to allocate bits to, coded as an empty stream
+    scalar = 0;
+    maxbits = 0;
+    return;
+  }
+
   // Quantization
   int i = 0;
   for (uint32_t block = 0; block < book.size(); block++) {
-- 
2.43.0


From 5acd484cd9f1640ab0e1a149c9415acaf24b7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 014/107] fix: scale the spectrum by the block length of the
 model at hand

The correction was a static, so every model used the block length of the first
model of the process and coding a signal depended on what was coded before.
---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 9c5f552..465be71 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -81,9 +81,9 @@ auto PsychohapticModel::getSMR(std::vector<double> &block) -> modelResult {
     i = i * sqrt(2 * (double)bl);
   }
 
-  static double correction = 1 / sqrt((double)bl);
+  const double correction = 1 / sqrt((double)bl);
   std::transform(spect_complex.begin(), spect_complex.end() - (long long)bl, spect_mag.begin(),
-                 [](std::complex<double> a) {
+                 [correction](std::complex<double> a) {
                    return LOGFACTOR_SPECT *
                           log10(correction * sqrt(a.real() * a.real() + a.imag() * a.imag()));
                  });
-- 
2.43.0


From da0968ed6d0801e752a66de3bdb522a8c8d56473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 015/107] fix: look up stream channels in their own perception

Channel identifiers are only unique within a perception; channels and bands
were attached to the channel with the same identifier in another perception.
---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..144e679 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -260,7 +260,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInPerception(types::Perception &perception, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..b704f58 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -705,7 +705,8 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInPerception(sreader.haptic.getPerceptionAt(perceIndex),
+                                                 sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -719,7 +720,8 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInPerception(sreader.haptic.getPerceptionAt(perceIndex),
+                                                 sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1807,7 +1809,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInPerception(sreader.perception, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2218,7 +2220,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInPerception(sreader.perception, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2629,13 +2631,10 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInPerception(types::Perception &perception, int id) -> int {
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From d408dfe6d29e6e8311c43f80aea04edf2ff343a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 016/107] fix: packetize every effect of a band that spans
 several packets

An effect that continued in the next packet ended the current one: the
remaining effects of the band and their keyframes were never written.
---
 source/IOHaptics/src/IOStream.cpp | 35 +++++++++++--------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b704f58..7925b6d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1975,9 +1975,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Fills one packet and returns true when no effect of the band extends beyond this packet
+  bool endBand = true;
+  bool isPacketRAU = true;
+  int packetEnd = swriter.time + static_cast<int>(swriter.packetDuration);
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -1992,40 +1994,27 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
       bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
+      if (!writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
+        endBand = false;
       }
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
-      }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
+        isPacketRAU &= isRAU;
       }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
-      if (effect.getPosition() >= swriter.time &&
-          effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
+      if (effect.getPosition() >= swriter.time && effect.getPosition() < packetEnd) {
         bitstream.push_back(bufEffect);
         swriter.effects.push_back(effect);
-        swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
+      } else if (effect.getPosition() >= packetEnd) {
+        endBand = false;
       }
     }
   }
-  return true;
+  swriter.auType = isPacketRAU ? AUType::RAU : AUType::DAU;
+  return endBand;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From b3a6f1aebd63cb495398a5d1528c5cbcceda99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 017/107] fix: give stream effects identifiers that fit their
 field

With the highest identifier in use, generated identifiers wrapped and
merged unrelated effects when decoding.
---
 source/IOHaptics/src/IOStream.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7925b6d..ef20f6c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1982,12 +1982,7 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
-      int nextId = 0;
-      if (!swriter.effectsId.empty()) {
-        nextId = *max_element(swriter.effectsId.begin(), swriter.effectsId.end()) + 1;
-      }
-      effect.setId(nextId);
-      swriter.effectsId.push_back(nextId);
+      setNextEffectId(swriter.effectsId, effect);
     }
 
     std::vector<bool> bufEffect = std::vector<bool>();
@@ -2763,12 +2758,7 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
   return effectsId;
 }
 auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool {
-  int nextId = 0;
-  if (!effectsId.empty()) {
-    nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
-  }
-  effect.setId(nextId);
-  effectsId.push_back(nextId);
+  effect.setId(getNextEffectId(effectsId));
   return true;
 }
 auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
@@ -2776,6 +2766,14 @@ auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
   if (!effectsId.empty()) {
     nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
   }
+  if (nextId >= (1 << EFFECT_ID)) {
+    // the highest identifier is taken: use the lowest free one that fits the field
+    nextId = 0;
+    while (nextId < (1 << EFFECT_ID) - 1 &&
+           std::find(effectsId.begin(), effectsId.end(), nextId) != effectsId.end()) {
+      nextId++;
+    }
+  }
   effectsId.push_back(nextId);
   return nextId;
 }
-- 
2.43.0


From 0b690bdc473f4209964fdc8ab963ff192ba794e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 018/107] fix: keep the avatar and semantic scheme of a
 repeated perception

Replacing the metadata of a perception used its own identifier as avatar
identifier and declared a semantic scheme when there was none.
---
 source/Types/src/Haptics.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..13dc474 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,14 +75,16 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  if (newPerception.getEffectSemanticScheme().has_value()) {
+    auto semantic = newPerception.getEffectSemanticScheme().value();
+    perceptions[index].setEffectSemanticScheme(semantic);
+  }
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
-- 
2.43.0


From bc27ffb087975049d72b30427a23891fbe09e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 019/107] fix: do not duplicate avatars when a stream repeats
 its description

---
 source/IOHaptics/src/IOStream.cpp | 2 ++
 source/Types/include/Haptics.h    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index ef20f6c..b3b7609 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -940,6 +940,8 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
   if (!readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
+  // the description is repeated at synchronization points
+  haptic.clearAvatars();
   for (auto avatar : avatarList) {
     haptic.addAvatar(avatar);
   }
diff --git a/source/Types/include/Haptics.h b/source/Types/include/Haptics.h
index 0b27d7c..d752ec4 100644
--- a/source/Types/include/Haptics.h
+++ b/source/Types/include/Haptics.h
@@ -78,6 +78,7 @@ public:
   [[nodiscard]] auto getAvatarsSize() -> size_t;
   [[nodiscard]] auto getAvatarAt(int index) -> Avatar &;
   auto addAvatar(Avatar &newAvatar) -> void;
+  auto clearAvatars() -> void { avatars.clear(); };
   [[nodiscard]] auto getTimescaleOrDefault() const -> unsigned int;
   [[nodiscard]] auto getTimescale() const -> std::optional<unsigned int>;
   auto setTimescale(std::optional<unsigned int> newTimescale) -> void;
-- 
2.43.0


From 95ae1d4df9b61a3d898a1c90b8620556787d8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 020/107] fix: split stream silences that exceed the unit
 duration field

---
 source/IOHaptics/src/IOStream.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b3b7609..72c1de0 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -151,10 +151,15 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
     if (first) {
       std::vector<std::vector<bool>> firstPacket = std::vector<std::vector<bool>>{packet};
       std::vector<bool> silentUnit = std::vector<bool>();
-      writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
-      if (silentUnit.size() > UNIT_TYPE) {
-        bitstream.push_back(silentUnit);
-      }
+      int silenceStart = 0;
+      do { // a long silence needs several units
+        silenceStart = swriter.time;
+        silentUnit.clear();
+        writeMIHSUnit(MIHSUnitType::Silent, firstPacket, silentUnit, swriter);
+        if (silentUnit.size() > UNIT_TYPE) {
+          bitstream.push_back(silentUnit);
+        }
+      } while (swriter.time != silenceStart);
       first = false;
     }
     if (bufUnit.empty()) {
@@ -177,7 +182,10 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
           getNextSync(haptic, nextSync, syncIdx);
           bitstream.push_back(syncUnit);
         }
-        if (swriter.time != packetTS) {
+        int silenceStart = -1;
+        while (swriter.time < packetTS && swriter.time != silenceStart) {
+          // a long silence needs several units
+          silenceStart = swriter.time;
           std::vector<std::vector<bool>> silentPackets{bufUnit[bufUnit.size() - 1], packet};
           std::vector<bool> silentUnit = std::vector<bool>();
           if (writeMIHSUnit(MIHSUnitType::Silent, silentPackets, silentUnit, swriter)) {
@@ -403,14 +411,14 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
   if (listPackets.size() == 1) {
     int tFirst =
         readPacketTS(std::vector<bool>(listPackets[0].begin() + H_NBITS, listPackets[0].end()));
-    if (tFirst >= static_cast<int>(swriter.packetDuration)) {
+    if (tFirst - swriter.time >= static_cast<int>(swriter.packetDuration)) {
       std::bitset<UNIT_SYNC> syncBits(0);
       std::string syncStr = syncBits.to_string();
       IOBinaryPrimitives::writeStrBits(syncStr, mihsunit);
       std::bitset<UNIT_LAYER> layerBits(swriter.layer);
       std::string layerStr = layerBits.to_string();
       IOBinaryPrimitives::writeStrBits(layerStr, mihsunit);
-      int duration = tFirst;
+      int duration = std::min(tFirst - swriter.time, (1 << UNIT_DURATION) - 1);
       if (duration % swriter.packetDuration != 0) {
         duration = duration - (duration % static_cast<int>(swriter.packetDuration));
       }
@@ -438,7 +446,7 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
     int start = swriter.time;
     int end =
         readPacketTS(std::vector<bool>(listPackets[1].begin() + H_NBITS, listPackets[1].end()));
-    int duration = end - start;
+    int duration = std::min(end - start, (1 << UNIT_DURATION) - 1);
     if (duration % swriter.packetDuration != 0) {
       duration = duration - (duration % static_cast<int>(swriter.packetDuration));
     }
-- 
2.43.0


From 98546b6040135701f6808392791b0d5c3310a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 021/107] fix: put every wavelet block in the stream packet it
 starts in

---
 source/IOHaptics/include/IOStream.h |   9 +-
 source/IOHaptics/src/IOStream.cpp   | 131 +++++++++++++++-------------
 2 files changed, 76 insertions(+), 64 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 144e679..d5bbac2 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -199,11 +199,12 @@ private:
   static auto writePayloadPacket(StreamWriter &swriter,
                                  std::vector<std::vector<bool>> bufPacketBitstream,
                                  std::vector<bool> &packetBits) -> std::vector<bool>;
-  static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                        std::vector<bool> &packetBits, StreamWriter &swriter)
+  static auto
+  writeWaveletPayloadPacket(const std::vector<std::vector<bool>> &bufPacketBitstream,
+                            std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
-  static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+  static auto readWaveletEffect(std::vector<bool> &bitstream, types::Effect &effect, int &length)
+      -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 72c1de0..65ea19d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1931,13 +1931,18 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.keyframesCount = std::vector<int>();
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
-    createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
-      swriter.auType = AUType::RAU;
-      packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
-      bitstreams.push_back(packetBits);
-      swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
+    swriter.auType = AUType::RAU;
+    bool endBand = false;
+    while (!endBand) {
+      endBand = createWaveletPayload(swriter, bufPacketBitstream);
+      if (!bufPacketBitstream.empty()) {
+        packetBits = writeEffectHeader(swriter);
+        packetBits = writeWaveletPayloadPacket(bufPacketBitstream, packetBits, swriter);
+        bitstreams.push_back(packetBits);
+      }
+      swriter.effects.clear();
+      bufPacketBitstream.clear();
+      swriter.time += static_cast<int>(swriter.packetDuration);
     }
   } else {
     while (!createPayloadPacket(swriter, bufPacketBitstream)) {
@@ -1964,24 +1969,21 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
 
 auto IOStream::createWaveletPayload(StreamWriter &swriter,
                                     std::vector<std::vector<bool>> &bitstream) -> bool {
-  if (swriter.bandStream.band.getBandType() != types::BandType::WaveletWave ||
-      !swriter.bandStream.band.getBlockLength().has_value()) {
-    return false;
-  }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
-    std::vector<bool> bufbitstream = std::vector<bool>();
-    types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
-    IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
-    bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
+  // Fills one packet with the blocks that start in it and returns true when no block starts later
+  bool endBand = true;
+  int packetEnd = swriter.time + static_cast<int>(swriter.packetDuration);
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
+    types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
+    if (effect.getPosition() >= packetEnd) {
+      endBand = false;
+    } else if (effect.getPosition() >= swriter.time) {
+      std::vector<bool> bufbitstream = std::vector<bool>();
+      IOBinaryBands::writeWaveletEffect(effect, bufbitstream);
+      bitstream.push_back(bufbitstream);
+      swriter.effects.push_back(effect);
     }
   }
-  return true;
+  return endBand;
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
@@ -2045,42 +2047,44 @@ auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
   return packetBits;
 }
 
-auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                         std::vector<bool> &packetBits, StreamWriter &swriter)
-    -> std::vector<bool> {
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(1);
+auto IOStream::writeWaveletPayloadPacket(
+    const std::vector<std::vector<bool>> &bufPacketBitstream, std::vector<bool> &packetBits,
+    StreamWriter &swriter) -> std::vector<bool> {
+  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.effects.size());
   std::string fxCountStr = fxCountBits.to_string();
   IOBinaryPrimitives::writeStrBits(fxCountStr, packetBits);
 
-  int id = getNextEffectId(swriter.effectsId);
-  std::bitset<EFFECT_ID> effectIDBits(static_cast<int>(id));
-  std::string effectIDStr = effectIDBits.to_string();
-  IOBinaryPrimitives::writeStrBits(effectIDStr, packetBits);
+  for (auto l = 0; l < static_cast<int>(swriter.effects.size()); l++) {
+    int id = getNextEffectId(swriter.effectsId);
+    std::bitset<EFFECT_ID> effectIDBits(static_cast<int>(id));
+    std::string effectIDStr = effectIDBits.to_string();
+    IOBinaryPrimitives::writeStrBits(effectIDStr, packetBits);
+
+    std::bitset<EFFECT_TYPE> effectTypeBits(static_cast<int>(types::EffectType::Basis));
+    std::string effectTypeStr = effectTypeBits.to_string();
+    IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  std::bitset<EFFECT_TYPE> effectTypeBits(static_cast<int>(types::EffectType::Basis));
-  std::string effectTypeStr = effectTypeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
+    if (swriter.effects[l].getSemantic().has_value()) {
+      std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
+      std::string flagSemanticStr = flagSemanticBits.to_string();
+      IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
 
-  if (swriter.bandStream.band.getEffectAt(0).getSemantic().has_value()) {
-    std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
-    std::string flagSemanticStr = flagSemanticBits.to_string();
-    IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
+      types::EffectSemantic semantic =
+          types::stringToEffectSemantic.at(swriter.effects[l].getSemantic().value());
+      std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
+          static_cast<int>(semantic));
+      std::string semanticStr = semanticBits.to_string();
+      IOBinaryPrimitives::writeStrBits(semanticStr, packetBits);
 
-    types::EffectSemantic semantic = types::stringToEffectSemantic.at(
-        swriter.bandStream.band.getEffectAt(0).getSemantic().value());
-    std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
-        static_cast<int>(semantic));
-    std::string semanticStr = semanticBits.to_string();
-    IOBinaryPrimitives::writeStrBits(semanticStr, packetBits);
+    } else {
+      std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(0);
+      std::string flagSemanticStr = flagSemanticBits.to_string();
+      IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
+    }
 
-  } else {
-    std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(0);
-    std::string flagSemanticStr = flagSemanticBits.to_string();
-    IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
+    packetBits.insert(packetBits.end(), bufPacketBitstream[l].begin(), bufPacketBitstream[l].end());
   }
 
-  packetBits.insert(packetBits.end(), bufPacketBitstream.begin(), bufPacketBitstream.end());
-
   return packetBits;
 }
 
@@ -2238,10 +2242,22 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       }
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
-      types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
-      effects.push_back(effect);
+      // blocks follow each other from the first block boundary of the packet
+      int blockLength = sreader.bandStream.band.getBlockLengthOrDefault();
+      int position = static_cast<int>(sreader.time);
+      if (blockLength > 0 && position % blockLength != 0) {
+        position += blockLength - position % blockLength;
+      }
+      int effectIdx = 0;
+      for (int i = 0; i < fxCount; i++) {
+        types::Effect effect;
+        std::vector<bool> effectBits(effectsBitsList.begin() + effectIdx, effectsBitsList.end());
+        if (!readWaveletEffect(effectBits, effect, effectIdx)) {
+          return false;
+        }
+        effect.setPosition(position + i * blockLength);
+        effects.push_back(effect);
+      }
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
                              sreader.bandStream.index, effects);
@@ -2384,8 +2400,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
   return true;
 }
 
-auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
+auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Effect &effect, int &length)
     -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
@@ -2404,10 +2419,6 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
-  effect.setPosition(effectPos);
-
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
   length += idx;
   return true;
-- 
2.43.0


From 8a6ad6957d21c473cd4e2e6378078fabbccf1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 022/107] fix: write spatial bands in the format of stream data
 packets

---
 source/IOHaptics/src/IOStream.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 65ea19d..1afce3b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -36,6 +36,8 @@
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
 
+#include <limits>
+
 namespace haptics::io {
 
 auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, int packetDuration)
@@ -2149,12 +2151,28 @@ auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<b
   swriter.auType = AUType::RAU;
   swriter.time = 0;
 
+  // the effects of a spatial band do not depend on time: they are all in one packet
+  unsigned int packetDuration = swriter.packetDuration;
+  swriter.packetDuration = std::numeric_limits<int>::max();
+  std::vector<std::vector<bool>> bufPacketBitstream = std::vector<std::vector<bool>>();
+  swriter.effects.clear();
+  swriter.keyframesCount.clear();
+  if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
+    createWaveletPayload(swriter, bufPacketBitstream);
+  } else {
+    linearizeTimeline(swriter.bandStream.band);
+    createPayloadPacket(swriter, bufPacketBitstream);
+  }
+  swriter.packetDuration = packetDuration;
+  if (bufPacketBitstream.empty()) {
+    return false;
+  }
   std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
+  if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
+    bandBitstream = writeWaveletPayloadPacket(bufPacketBitstream, bandBitstream, swriter);
+  } else {
+    bandBitstream = writePayloadPacket(swriter, bufPacketBitstream, bandBitstream);
+  }
   bitstream.push_back(bandBitstream);
 
   return true;
@@ -2185,6 +2203,7 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         if (spatial) {
           writeSpatialData(swriter, bandBitstream);
           expBitstream.push_back(bandBitstream);
+          bandBitstream.clear();
         } else {
           linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-- 
2.43.0


From d83715a55088f4a6c918c9131820609d932b8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 023/107] fix: leave out every component without content from a
 stream

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1afce3b..8bd3246 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -633,14 +633,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  // from last to first, as removing an item shifts the following ones
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From 847a1494a3cabfe8330192fc7e36bf04f2a0bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 024/107] fix: do not give stream effects identifiers of
 composite content

---
 source/IOHaptics/include/IOStream.h |  1 +
 source/IOHaptics/src/IOStream.cpp   | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index d5bbac2..63f7cd1 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -295,6 +295,7 @@ private:
   static auto checkHapticComponent(types::Haptics &haptic) -> void;
 
   static auto padToByteBoundary(std::vector<bool> &bitstream) -> void;
+  static auto addEffectId(types::Effect &effect, std::vector<int> &effectsId) -> void;
   static auto setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool;
   static auto getNextEffectId(std::vector<int> &effectsId) -> int;
   static auto addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8bd3246..5edbf19 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2788,15 +2788,21 @@ auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
         types::Band band = channel.getBandAt(k);
         for (int l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
           types::Effect effect = band.getEffectAt(l);
-          if (effect.getId() != -1) {
-            effectsId.push_back(effect.getId());
-          }
+          addEffectId(effect, effectsId);
         }
       }
     }
   }
   return effectsId;
 }
+auto IOStream::addEffectId(types::Effect &effect, std::vector<int> &effectsId) -> void {
+  if (effect.getId() != -1) {
+    effectsId.push_back(effect.getId());
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    addEffectId(effect.getTimelineEffectAt(i), effectsId);
+  }
+}
 auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool {
   effect.setId(getNextEffectId(effectsId));
   return true;
-- 
2.43.0


From 518b74474ff402c5b1e7c76c98bb83e4886b5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 025/107] fix: write the nearest level of real fields so that
 re-encoding does not drift

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..718b3d6 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -93,9 +93,10 @@ public:
                              std::vector<bool> &unusedBits) -> float {
     auto intValue = readNBits<T, bitCount>(file, unusedBits);
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, bitCount) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto range = static_cast<double>(maxValue) - static_cast<double>(minValue);
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(normalizedValue * range + static_cast<double>(minValue));
     return value;
   }
 
@@ -111,10 +112,12 @@ public:
   template <class T, size_t bitCount>
   static auto writeFloatNBits(float value, std::vector<bool> &output, float minValue,
                               float maxValue) -> void {
-    auto normalizedValue = (value - minValue) / (maxValue - minValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
+    // nearest level, so that a value read from a file is written back unchanged
+    auto range = static_cast<double>(maxValue) - static_cast<double>(minValue);
+    auto normalizedValue = (static_cast<double>(value) - static_cast<double>(minValue)) / range;
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
     auto maxIntValue = static_cast<T>(std::pow(2, bitCount) - 1);
-    auto intValue = static_cast<T>((double)(normalizedValue)*maxIntValue);
+    auto intValue = static_cast<T>(normalizedValue * maxIntValue + 0.5);
     writeNBits<T, bitCount>(intValue, output);
   }
 
@@ -151,9 +154,10 @@ public:
     }
     auto intValue = std::bitset<length>(str).to_ulong();
     auto maxIntValue = static_cast<uint64_t>(std::pow(2, length) - 1);
-    auto normalizedValue = intValue / static_cast<float>(maxIntValue);
-    normalizedValue = std::clamp<float>(normalizedValue, 0, 1);
-    auto value = normalizedValue * (maxValue - minValue) + minValue;
+    auto range = static_cast<double>(maxValue) - static_cast<double>(minValue);
+    auto normalizedValue = static_cast<double>(intValue) / static_cast<double>(maxIntValue);
+    normalizedValue = std::clamp<double>(normalizedValue, 0, 1);
+    auto value = static_cast<float>(normalizedValue * range + static_cast<double>(minValue));
     startIdx += static_cast<int>(length);
     return value;
   }
-- 
2.43.0


From 7c24be7e9a16094b55d5bf7da5a93be65bc55f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 026/107] fix: check stream reads against the length of the
 data

---
 source/IOHaptics/include/IOBinaryPrimitives.h | 32 +++++++---
 source/IOHaptics/src/IOStream.cpp             | 60 ++++++++++++-------
 2 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 718b3d6..bdc6271 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -144,6 +145,7 @@ public:
   template <size_t length>
   static auto readFloatNBits(std::vector<bool> &bitstream, int &startIdx, float minValue,
                              float maxValue) -> float {
+    checkAvailable(bitstream, startIdx, static_cast<int>(length));
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
       if (bitstream[i]) {
@@ -168,7 +170,8 @@ public:
       bitstream.push_back(c == '1');
     }
   }
-  static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
+  static auto readUInt(const std::vector<bool> &bitstream, int &startIdx, int length) -> int {
+    checkAvailable(bitstream, startIdx, length);
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
       if ((bitstream[i])) {
@@ -182,19 +185,22 @@ public:
     return static_cast<int>(inv);
   }
 
-  static auto readInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
-
-    if (bitstream.empty()) {
-      return EXIT_FAILURE;
-    }
+  static auto readInt(const std::vector<bool> &bitstream, int &startIdx, int length) -> int {
+    checkAvailable(bitstream, startIdx, length);
     if (bitstream[startIdx]) {
-      bitstream.flip();
-      return -(readUInt(bitstream, startIdx, length) + 1);
+      std::vector<bool> flipped(bitstream.begin() + startIdx,
+                                bitstream.begin() + startIdx + length);
+      flipped.flip();
+      int flippedIdx = 0;
+      startIdx += length;
+      return -readUInt(flipped, flippedIdx, length) - 1;
     }
     return readUInt(bitstream, startIdx, length);
   }
 
-  static auto readString(std::vector<bool> bitstream, int &startIdx, int length) -> std::string {
+  static auto readString(const std::vector<bool> &bitstream, int &startIdx, int length)
+      -> std::string {
+    checkAvailable(bitstream, startIdx, length * BYTE_SIZE);
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
@@ -212,6 +218,14 @@ public:
     return res;
   }
 
+  // The length fields of a stream may claim more bits than it holds
+  static auto checkAvailable(const std::vector<bool> &bitstream, int startIdx, int length) -> void {
+    if (startIdx < 0 || length < 0 ||
+        static_cast<size_t>(startIdx) + static_cast<size_t>(length) > bitstream.size()) {
+      throw std::out_of_range("bitstream too short");
+    }
+  }
+
   static auto readNBytes(std::istream &file, int nbBytes, std::vector<bool> &bitstream) -> bool {
     std::vector<char> bytes(nbBytes);
     file.read(bytes.data(), nbBytes);
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 5edbf19..b93af06 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -64,20 +64,25 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
-  int index = 0;
-  for (auto &packet : bitstream) {
-    if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
-    }
-    if (crc.nbPackets != 0) {
-      if (!checkCRC(bitstream, crc)) {
-        sreader.waitSync = true;
+  try {
+    for (auto &packet : bitstream) {
+      if (!readMIHSUnit(packet, sreader, crc)) {
+        return false;
+      }
+      if (crc.nbPackets != 0) {
+        if (!checkCRC(bitstream, crc)) {
+          sreader.waitSync = true;
+        }
       }
     }
-    index++;
+  } catch (const std::exception &e) { // a field exceeds its packet or is out of range
+    std::cerr << filePath << ": Invalid stream: " << e.what() << std::endl;
+    return false;
   }
   sreader.haptic.setTimescale(sreader.timescale); // TODO: earlier?
   haptic = sreader.haptic;
@@ -94,21 +99,25 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
   }
 
   file.seekg(0, std::ios::end);
-  unsigned int length = static_cast<unsigned int>(file.tellg());
+  auto length = static_cast<std::streamoff>(file.tellg());
   file.seekg(0, std::ios::beg);
 
-  if (length == 0) { // avoid undefined behavior
+  if (length <= 0) { // avoid undefined behavior
     file.close();
     return false;
   }
 
   std::vector<std::vector<bool>> packetBits = std::vector<std::vector<bool>>();
-  unsigned int byteCount = 0;
+  std::streamoff byteCount = 0;
   while (byteCount < length) {
     std::vector<bool> bufPacket = std::vector<bool>();
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
+    if (length - byteCount < unitNBits / BYTE_SIZE) {
+      std::cerr << filePath << ": Truncated stream" << std::endl;
+      return false;
+    }
     IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
@@ -116,6 +125,11 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
 
     // int bytesToRead = readPacketLength(bufPacket);
+    if (bytesToRead < 0 || bytesToRead > length - byteCount ||
+        bytesToRead > (std::numeric_limits<int>::max() - unitNBits) / BYTE_SIZE) {
+      std::cerr << filePath << ": Truncated stream" << std::endl;
+      return false;
+    }
     //  read paylaod
     IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
     byteCount += bytesToRead;
@@ -261,16 +275,21 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   sreader.layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
 
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
-  int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
+  IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH);
   index += UNIT_RESERVED;
 
-  std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
-    if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+  while (index < static_cast<int>(mihsunit.size())) {
+    int lengthIdx = index + H_MIHS_PACKET_TYPE;
+    int packetNBits = H_NBITS + IOBinaryPrimitives::readUInt(mihsunit, lengthIdx, H_PAYLOAD_LENGTH) *
+                                    BYTE_SIZE;
+    if (packetNBits > static_cast<int>(mihsunit.size()) - index) {
+      return false;
+    }
+    std::vector<bool> packet(mihsunit.begin() + index, mihsunit.begin() + index + packetNBits);
+    if (!readMIHSPacket(packet, sreader, crc)) {
+      return false;
     }
-    index += static_cast<int>(sreader.packetLength) + H_NBITS;
-    packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
+    index += packetNBits;
   }
   sreader.time += sreader.packetDuration;
   return true;
@@ -1494,6 +1513,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
+  IOBinaryPrimitives::checkAvailable(bitstream, idx, REFDEV_OPT_FIELDS);
   std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
   idx += REFDEV_OPT_FIELDS;
   int maskIdx = 0;
-- 
2.43.0


From 264fecaa30f4963df473617314c1dda6b65b10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 027/107] fix: refuse unknown enumeration values in streams

---
 source/IOHaptics/src/IOStream.cpp | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b93af06..a3b2978 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -37,9 +37,19 @@
 #include <IOHaptics/include/IOStream.h>
 
 #include <limits>
+#include <map>
+#include <stdexcept>
 
 namespace haptics::io {
 
+// Throws std::out_of_range if the value read is not one of the enumeration
+template <class T> static auto toEnum(const std::map<T, std::string> &names, int value) -> T {
+  if (names.find(static_cast<T>(value)) == names.end()) {
+    throw std::out_of_range("unknown enumeration value");
+  }
+  return static_cast<T>(value);
+}
+
 auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, int packetDuration)
     -> bool {
   std::ofstream file(filePath, std::ios::out | std::ios::binary);
@@ -1012,7 +1022,7 @@ auto IOStream::readAvatar(std::vector<bool> &bitstream, types::Avatar &avatar, i
   int type = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_TYPE);
   avatar.setId(id);
   avatar.setLod(lod);
-  avatar.setType(static_cast<types::AvatarType>(type));
+  avatar.setType(toEnum(types::avatarTypeToString, type));
   if (type == 0) {
     int meshCount = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_MESH_COUNT);
     std::string mesh = IOBinaryPrimitives::readString(bitstream, idx, meshCount);
@@ -1116,7 +1126,7 @@ auto IOStream::readMetadataPerception(StreamReader &sreader, std::vector<bool> &
   sreader.perception.setDescription(desc);
 
   int modal = IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_MODALITY);
-  sreader.perception.setPerceptionModality(static_cast<types::PerceptionModality>(modal));
+  sreader.perception.setPerceptionModality(toEnum(types::perceptionModalityToString, modal));
 
   int avatarId = IOBinaryPrimitives::readUInt(bitstream, idx, AVATAR_ID);
   sreader.perception.setAvatarId(avatarId);
@@ -1194,7 +1204,7 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
   libraryEffect.setId(id);
 
   int effectType = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE);
-  libraryEffect.setEffectType(static_cast<types::EffectType>(effectType));
+  libraryEffect.setEffectType(toEnum(types::effectTypeToString, effectType));
 
   int hasSemantic = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_FLAG_SEMANTIC);
   if (hasSemantic == 1) {
@@ -1212,7 +1222,7 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
     libraryEffect.setPhase(phase);
 
     int baseSignal = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_BASE_SIGNAL);
-    libraryEffect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+    libraryEffect.setBaseSignal(toEnum(types::baseSignalToString, baseSignal));
   }
 
   int kfCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_KEYFRAME_COUNT);
@@ -1565,7 +1575,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   }
   if (mask[maskIdx++]) {
     int type = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_TYPE);
-    refDevice.setType(static_cast<types::ActuatorType>(type));
+    refDevice.setType(toEnum(types::actuatorTypeToString, type));
   }
   length += idx;
   return true;
@@ -1740,8 +1750,8 @@ auto IOStream::readMetadataChannel(StreamReader &sreader, std::vector<bool> &bit
     std::vector<types::BodyPartTarget> bodyPartTarget(bodyPartTargetCount,
                                                       types::BodyPartTarget::Unknown);
     for (auto &target : bodyPartTarget) {
-      target = static_cast<types::BodyPartTarget>(
-          IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_BODY_PART_TARGET));
+      target = toEnum(types::bodyPartTargetToString,
+                      IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_BODY_PART_TARGET));
     }
     sreader.channel.setBodyPartTarget(bodyPartTarget);
 
@@ -1853,10 +1863,10 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   }
 
   int bandType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BAND_TYPE);
-  sreader.bandStream.band.setBandType(static_cast<types::BandType>(bandType));
+  sreader.bandStream.band.setBandType(toEnum(types::bandTypeToString, bandType));
   if (sreader.bandStream.band.getBandType() == types::BandType::Curve) {
     int curveType = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_CURVE_TYPE);
-    sreader.bandStream.band.setCurveType(static_cast<types::CurveType>(curveType));
+    sreader.bandStream.band.setCurveType(toEnum(types::curveTypeToString, curveType));
   } else if (sreader.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     int windowLength = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_BLK_LEN);
     sreader.bandStream.band.setBlockLength(windowLength);
@@ -2446,7 +2456,7 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Effect &ef
   effect.setId(id);
 
   types::EffectType effectType =
-      static_cast<types::EffectType>(IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
+      toEnum(types::effectTypeToString, IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
   effect.setEffectType(effectType);
 
   int hasSemantic = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_FLAG_SEMANTIC);
@@ -2471,7 +2481,7 @@ auto IOStream::readEffect(std::vector<bool> &bitstream, types::Effect &effect, t
   effect.setId(id);
 
   types::EffectType effectType =
-      static_cast<types::EffectType>(IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
+      toEnum(types::effectTypeToString, IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TYPE));
   effect.setEffectType(effectType);
 
   int effectPos = IOBinaryPrimitives::readInt(bitstream, idx, EFFECT_POSITION);
@@ -2528,7 +2538,7 @@ auto IOStream::readEffectBasis(std::vector<bool> &bitstream, types::Effect &effe
     float phase = IOBinaryPrimitives::readFloatNBits<EFFECT_PHASE>(bitstream, idx, 0, MAX_PHASE);
     effect.setPhase(phase);
     int baseSignal = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_BASE_SIGNAL);
-    effect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+    effect.setBaseSignal(toEnum(types::baseSignalToString, baseSignal));
   }
   std::vector<types::Keyframe> keyframes = std::vector<types::Keyframe>();
   std::vector<bool> kfBitsList(bitstream.begin() + idx, bitstream.end());
-- 
2.43.0


From bf095d014cc105b3d509e1ff50b8d0a7beb188c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 028/107] fix: refuse stream times that cannot be represented

---
 source/IOHaptics/include/IOStream.h |  3 ++-
 source/IOHaptics/src/IOStream.cpp   | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 63f7cd1..d0f5bce 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -298,7 +298,8 @@ private:
   static auto addEffectId(types::Effect &effect, std::vector<int> &effectsId) -> void;
   static auto setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool;
   static auto getNextEffectId(std::vector<int> &effectsId) -> int;
-  static auto addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool;
+  static auto addTimestampEffect(std::vector<types::Effect> &effects, unsigned int timestamp)
+      -> bool;
   static auto silentUnitSyncFlag(std::vector<std::vector<bool>> &bitstream) -> void;
 
   static auto getNextSync(types::Haptics &haptic, types::Sync &sync, int &idxs) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a3b2978..6c805ec 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -884,6 +884,9 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
   int durationDeviation =
       IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_DURATIONDEVIATION);
   bool overlapping = IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_OVERLAPPING) == 1;
+  if (timescale == 0) { // times could not be converted
+    return false;
+  }
   types::Sync sync = types::Sync(timestamp, timescale);
   sreader.haptic.addSync(sync);
   sreader.nominalDuration = nominalDuration;
@@ -2289,11 +2292,13 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       if (!readListObject(effectsBitsList, fxCount, sreader.bandStream.band, effects, idx)) {
         return false;
       }
-      addTimestampEffect(effects, static_cast<int>(sreader.time));
+      if (!addTimestampEffect(effects, sreader.time)) {
+        return false;
+      }
     } else {
       // blocks follow each other from the first block boundary of the packet
       int blockLength = sreader.bandStream.band.getBlockLengthOrDefault();
-      int position = static_cast<int>(sreader.time);
+      auto position = static_cast<int64_t>(sreader.time);
       if (blockLength > 0 && position % blockLength != 0) {
         position += blockLength - position % blockLength;
       }
@@ -2304,7 +2309,11 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
         if (!readWaveletEffect(effectBits, effect, effectIdx)) {
           return false;
         }
-        effect.setPosition(position + i * blockLength);
+        int64_t effectPosition = position + static_cast<int64_t>(i) * blockLength;
+        if (effectPosition > std::numeric_limits<int>::max()) {
+          return false;
+        }
+        effect.setPosition(static_cast<int>(effectPosition));
         effects.push_back(effect);
       }
     }
@@ -2800,10 +2809,14 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
   }
   return true;
 }
-auto IOStream::addTimestampEffect(std::vector<types::Effect> &effects, int timestamp) -> bool {
+auto IOStream::addTimestampEffect(std::vector<types::Effect> &effects,
+                                  unsigned int timestamp) -> bool {
   for (auto &e : effects) {
-    int relativeTime = e.getPosition();
-    e.setPosition(relativeTime + timestamp);
+    auto position = static_cast<int64_t>(e.getPosition()) + timestamp;
+    if (position > std::numeric_limits<int>::max()) {
+      return false;
+    }
+    e.setPosition(static_cast<int>(position));
   }
   return true;
 }
-- 
2.43.0


From bdf670d8e301b20a125fd21409bc386d13ade1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 029/107] fix: add the band of a stream whose identifier
 belongs to another channel

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6c805ec..19b0f85 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -765,7 +765,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
-            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <
+            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <=
             bandIndex) {
       sreader.haptic.getPerceptionAt(perceIndex)
           .getChannelAt(channelIndex)
-- 
2.43.0


From 4f0d160256eb9d8e40a8896decd0b7956ef1228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 030/107] fix: compute the CRC of a stream in linear time

---
 source/IOHaptics/src/IOStream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 19b0f85..6d84338 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2446,15 +2446,16 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
   for (size_t i = 0; i < polynomial.size(); i++) {
     bitstream.push_back(false);
   }
-  while (bitstream.size() > polynomial.size()) {
-    bool msb = bitstream[0];
-    bitstream = std::vector<bool>(bitstream.begin() + 1, bitstream.end());
+  size_t start = 0;
+  while (bitstream.size() - start > polynomial.size()) {
+    bool msb = bitstream[start++];
     if (msb) {
       for (size_t i = 0; i < polynomial.size(); i++) {
-        bitstream[i] = bitstream[i] != polynomial[i];
+        bitstream[start + i] = bitstream[start + i] != polynomial[i];
       }
     }
   }
+  bitstream.erase(bitstream.begin(), bitstream.begin() + static_cast<std::ptrdiff_t>(start));
   return true;
 }
 
-- 
2.43.0


From e2e70cfd072215f597325bb62f8258a1a9696183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 031/107] fix: skip dependent stream data while waiting for
 synchronization

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 6d84338..b8b2b8f 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2255,7 +2255,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // skip dependent data until the next synchronization
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From c7e91c2481d83b92f858e0b461862d7b189db116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 032/107] fix: bound the nesting of library effects read from a
 stream

---
 source/IOHaptics/include/IOStream.h |  3 ++-
 source/IOHaptics/src/IOStream.cpp   | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index d0f5bce..43aa396 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -46,6 +46,7 @@ namespace haptics::io {
 
 static constexpr int TIME_TO_MS = 1000;
 static constexpr int DEFAULT_PACKET_DURATION = 128;
+static constexpr int MAX_TIMELINE_DEPTH = 256;
 static constexpr int DEFAULT_DURATION_DEVIATION = 0;
 
 static constexpr uint32_t CRC32_POLYNOMIAL = 2187366103;
@@ -240,7 +241,7 @@ private:
                                   int &length) -> bool;
   static auto readLibrary(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                std::vector<bool> &bitstream) -> bool;
+                                std::vector<bool> &bitstream, int depth = 0) -> bool;
   static auto readMetadataChannel(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
   static auto readSpatialData(StreamReader &sreader, std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b8b2b8f..1ee4d09 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1191,18 +1191,22 @@ auto IOStream::readLibrary(StreamReader &sreader, std::vector<bool> &bitstream)
   }
   types::Perception perception = sreader.haptic.getPerceptionAt(perceIndex);
   auto effectCount = IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_LIBRARY_COUNT);
-  bool success = true;
 
   for (int i = 0; i < effectCount; i++) {
     types::Effect libraryEffect;
-    success &= readLibraryEffect(libraryEffect, idx, bitstream);
+    if (!readLibraryEffect(libraryEffect, idx, bitstream)) {
+      return false;
+    }
     perception.addBasisEffect(libraryEffect);
   }
   sreader.haptic.replacePerceptionAt(perceIndex, perception);
-  return success;
+  return true;
 }
 auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
-                                 std::vector<bool> &bitstream) -> bool {
+                                 std::vector<bool> &bitstream, int depth) -> bool {
+  if (depth > MAX_TIMELINE_DEPTH) {
+    return false;
+  }
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   libraryEffect.setId(id);
 
@@ -1249,16 +1253,17 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
     types::Keyframe myKeyframe(position, amplitude, frequency);
     libraryEffect.addKeyframe(myKeyframe);
   }
-  bool success = true;
 
   auto timelineEffectCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TIMELINE_COUNT);
   for (int i = 0; i < timelineEffectCount; i++) {
     types::Effect timelineEffect;
-    success &= readLibraryEffect(timelineEffect, idx, bitstream);
+    if (!readLibraryEffect(timelineEffect, idx, bitstream, depth + 1)) {
+      return false;
+    }
     libraryEffect.addTimelineEffect(timelineEffect);
   }
 
-  return success;
+  return true;
 }
 
 auto IOStream::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool> &bitstream)
-- 
2.43.0


From aec8093dbc9414837378c66f069d7448e7126093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 033/107] fix: do not read a directory as an endless stream

---
 source/IOHaptics/src/IOStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1ee4d09..a842131 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -129,6 +129,10 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
       return false;
     }
     IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
+    if (!file) {
+      std::cerr << filePath << ": Cannot read file!" << std::endl;
+      return false;
+    }
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
-- 
2.43.0


From 985c3312582693b9a52ceb7a184a1218e4afd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 034/107] fix: check a stream CRC once, over the packets in
 their order

---
 source/IOHaptics/src/IOStream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a842131..9ccdd52 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2407,14 +2407,15 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
 
 auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) -> bool {
   std::vector<bool> protectedPackets = std::vector<bool>();
-  if (bitstream.size() < crc.nbPackets) {
+  const int nbPackets = crc.nbPackets;
+  crc.nbPackets = 0; // a CRC is checked once
+  if (static_cast<int>(bitstream.size()) < nbPackets) {
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  for (; index < nbPackets; index++) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
-    index++;
   }
   bool res = false;
   if (crc.value16 > 0) {
-- 
2.43.0


From d707a0a91424266df98749e8b62df515a394671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 035/107] fix: refuse HJIF files nested too deeply to be
 processed

---
 source/IOHaptics/src/IOJson.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 3d564cd..ac29886 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -621,9 +621,28 @@ auto IOJson::schemaConformanceCheck(const rapidjson::Document &hjifFile,
   return true;
 }
 
+// Stops parsing a document nested deeper than what can be processed recursively
+struct NestingHandler : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>, NestingHandler> {
+  static constexpr int MAX_DEPTH = 1000;
+  int depth = 0;
+  auto StartObject() -> bool { return ++depth <= MAX_DEPTH; }
+  auto EndObject(rapidjson::SizeType /*unused*/) -> bool { return --depth >= 0; }
+  auto StartArray() -> bool { return ++depth <= MAX_DEPTH; }
+  auto EndArray(rapidjson::SizeType /*unused*/) -> bool { return --depth >= 0; }
+};
+
 auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   bool loadingSuccess = true;
   std::ifstream ifs(filePath);
+  rapidjson::IStreamWrapper nestingStream(ifs);
+  rapidjson::Reader reader;
+  NestingHandler nestingHandler;
+  if (reader.Parse<rapidjson::kParseIterativeFlag>(nestingStream, nestingHandler).IsError()) {
+    std::cerr << "Invalid HJIF input file: JSON parsing error" << std::endl;
+    return false;
+  }
+  ifs.clear();
+  ifs.seekg(0);
   rapidjson::IStreamWrapper isw(ifs);
   rapidjson::Document jsonTree;
   if (jsonTree.ParseStream(isw).HasParseError()) {
-- 
2.43.0


From 8fcf947389d91ec31c4cddbfa0a4515e8cbe773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 036/107] fix: parse deeply nested AHAP files without recursion

---
 source/Encoder/src/AhapEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..a823764 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -72,7 +72,8 @@ namespace haptics::encoder {
   std::ifstream ifs(filename);
   rapidjson::IStreamWrapper isw(ifs);
   rapidjson::Document json;
-  if (json.ParseStream<rapidjson::kParseTrailingCommasFlag>(isw).HasParseError()) {
+  if (json.ParseStream<rapidjson::kParseTrailingCommasFlag | rapidjson::kParseIterativeFlag>(isw)
+          .HasParseError()) {
     std::cerr << "Invalid AHAP input file: JSON parsing error" << std::endl;
     return EXIT_FAILURE;
   }
-- 
2.43.0


From 5d96a74106c364e3364ee1d323338cf8017e9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 037/107] fix: do not write more characters than a text field
 announces

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..101c991 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,8 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  // only the characters announced by the size
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From 70a0013510937545959c13f5d5c404d740220147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 038/107] fix: read the channel identifiers of a binary file as
 unsigned

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..dfbaadb 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -593,7 +593,7 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
   // for each channel
   for (unsigned short i = 0; i < channelCount; i++) {
     types::Channel t;
-    t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
+    t.setId(IOBinaryPrimitives::readNBits<uint16_t, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
     t.setReferenceDeviceId(
-- 
2.43.0


From df3b900b14778618feebc367eeedb2d7aacbdb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 039/107] fix: keep the absence of a reference device in a
 binary file

---
 source/IOHaptics/src/IOBinary.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index dfbaadb..7245c0f 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -596,8 +596,10 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<uint16_t, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (deviceId != REFDEV_MAX_ID) { // written when there is no reference device
+      t.setReferenceDeviceId(deviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
@@ -675,7 +677,7 @@ auto IOBinary::writeChannelsHeader(types::Perception &perception, std::vector<bo
     std::string channelDescription = myChannel.getDescription();
     IOBinaryPrimitives::writeString(channelDescription, output);
 
-    short deviceId = static_cast<short>(myChannel.getReferenceDeviceId().value_or(-1));
+    short deviceId = static_cast<short>(myChannel.getReferenceDeviceId().value_or(REFDEV_MAX_ID));
     IOBinaryPrimitives::writeNBits<short, MDCHANNEL_DEVICE_ID>(deviceId, output);
 
     float channelGain = myChannel.getGain();
-- 
2.43.0


From 2addd436e08c9f3205c2de51553ad3e7b188a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 040/107] fix: write the effects of a timeline instead of their
 parent again

---
 source/IOHaptics/src/IOBinary.cpp      |  2 +-
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 7245c0f..2986071 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From 870829db0aaac75ae1d8787f706f8435dbf37d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 041/107] fix: place the wavelet blocks of a binary file one
 block length apart

---
 source/IOHaptics/src/IOBinaryBands.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..cd78774 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -108,7 +108,7 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
 }
 
 auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits, const unsigned int timescale)
+                                 std::vector<bool> &unusedBits, const unsigned int /*timescale*/)
     -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
@@ -118,8 +118,8 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      // the block length is already in ticks
+      position = effectIndex * band.getBlockLengthOrDefault();
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From 65da5633d408fa78c7de102c239dd6519060ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 042/107] fix: round the wavelet block length of a binary file
 and refuse one that is too small

---
 source/IOHaptics/include/IOBinaryBands.h | 1 +
 source/IOHaptics/src/IOBinary.cpp        | 2 +-
 source/IOHaptics/src/IOBinaryBands.cpp   | 9 +++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryBands.h b/source/IOHaptics/include/IOBinaryBands.h
index 893a127..7b3dd29 100644
--- a/source/IOHaptics/include/IOBinaryBands.h
+++ b/source/IOHaptics/include/IOBinaryBands.h
@@ -44,6 +44,7 @@
 namespace haptics::io {
 
 constexpr int WAVELET_BL_FACTOR = 32;
+constexpr int WAVELET_MIN_BL = 16;
 constexpr int S2MS = 1000;
 
 class IOBinaryBands {
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 2986071..fec5415 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -810,7 +810,7 @@ auto IOBinary::writeFileBody(types::Haptics &haptic, std::vector<bool> &output)
            bandIndex < static_cast<unsigned short>(myChannel.getBandsSize()); bandIndex++) {
         myBand = myChannel.getBandAt(bandIndex);
         if (!IOBinaryBands::writeBandHeader(myBand, output, haptic.getTimescaleOrDefault())) {
-          continue;
+          return false;
         }
 
         if (!IOBinaryBands::writeBandBody(myBand, output)) {
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index cd78774..3f58eb1 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -86,12 +86,13 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_CURVE_TYPE>(curveType, output);
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
-    auto blockLength_samples =
-        (int)((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
-    auto blockLength_code = (int)log2(blockLength_samples) - 4;
-    if (blockLength_code < 0) {
+    auto blockLength_samples = static_cast<int>(
+        std::lround((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit()));
+    if (blockLength_samples < WAVELET_MIN_BL) {
       std::cerr << "wavelet blocklength too small" << std::endl;
+      return false;
     }
+    auto blockLength_code = static_cast<int>(std::floor(std::log2(blockLength_samples))) - 4;
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_BLK_LEN>(blockLength_code, output);
   }
 
-- 
2.43.0


From 3fa136d37d1c628bbf53a3f297bff08814ef90e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 043/107] fix: refuse truncated, unrepresentable or endlessly
 nested binary files

---
 source/IOHaptics/include/IOBinary.h      |  4 ++-
 source/IOHaptics/include/IOBinaryBands.h |  3 +-
 source/IOHaptics/src/IOBinary.cpp        | 40 ++++++++++++++----------
 source/IOHaptics/src/IOBinaryBands.cpp   | 30 +++++++++++++-----
 4 files changed, 50 insertions(+), 27 deletions(-)

diff --git a/source/IOHaptics/include/IOBinary.h b/source/IOHaptics/include/IOBinary.h
index 45c3693..3dc3b56 100644
--- a/source/IOHaptics/include/IOBinary.h
+++ b/source/IOHaptics/include/IOBinary.h
@@ -81,6 +81,7 @@ public:
   static auto writeFileHeader(types::Haptics &haptic, std::vector<bool> &output) -> bool;
 
 private:
+  static auto readContent(types::Haptics &out, std::istream &file) -> bool;
   static auto readFileBody(types::Haptics &haptic, std::istream &file,
                            std::vector<bool> &unusedBits) -> bool;
   static auto readAvatars(types::Haptics &haptic, std::istream &file, std::vector<bool> &unusedBits)
@@ -91,7 +92,8 @@ private:
                                    std::vector<bool> &unusedBits) -> bool;
   static auto readLibrary(types::Perception &perception, std::istream &file,
                           std::vector<bool> &unusedBits) -> bool;
-  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits) -> types::Effect;
+  static auto readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth = 0)
+      -> types::Effect;
   static auto readChannelsHeader(types::Perception &perception, std::istream &file,
                                  std::vector<bool> &unusedBits) -> bool;
 
diff --git a/source/IOHaptics/include/IOBinaryBands.h b/source/IOHaptics/include/IOBinaryBands.h
index 7b3dd29..7fd37bc 100644
--- a/source/IOHaptics/include/IOBinaryBands.h
+++ b/source/IOHaptics/include/IOBinaryBands.h
@@ -46,6 +46,7 @@ namespace haptics::io {
 constexpr int WAVELET_BL_FACTOR = 32;
 constexpr int WAVELET_MIN_BL = 16;
 constexpr int S2MS = 1000;
+constexpr int MAX_EFFECT_NESTING = 256;
 
 class IOBinaryBands {
 public:
@@ -86,7 +87,7 @@ private:
   static auto readReferenceEffect(types::Effect &effect, int &idx, std::vector<bool> &bitstream)
       -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                 std::vector<bool> &unusedBits) -> bool;
+                                 std::vector<bool> &unusedBits, int depth = 0) -> bool;
   static auto readTimelineEffect(types::Effect &effect, types::Band &band, int &idx,
                                  std::vector<bool> &bitstream) -> bool;
 };
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index fec5415..3b6cbc5 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -37,18 +37,28 @@
 #include <array>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 
 namespace haptics::io {
 
 auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::istream istr(&in);
 
-  std::vector<bool> unusedBits;
-  bool res = readFileHeader(out, istr, unusedBits);
-  if (res) {
-    readFileBody(out, istr, unusedBits);
-  }
-  return res;
+  return readContent(out, istr);
+}
+
+auto IOBinary::readContent(types::Haptics &out, std::istream &file) -> bool {
+  // the counts of a damaged file may announce much more than it holds
+  file.exceptions(std::ios::failbit | std::ios::badbit);
+  try {
+    std::vector<bool> unusedBits;
+    return readFileHeader(out, file, unusedBits) && readFileBody(out, file, unusedBits);
+  } catch (const std::ios_base::failure &) {
+    std::cerr << "Binary file too short" << std::endl;
+  } catch (const std::out_of_range &e) {
+    std::cerr << "Invalid binary file: " << e.what() << std::endl;
+  }
+  return false;
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -67,14 +77,7 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
     file.close();
     return false;
   }
-  std::vector<bool> unusedBits;
-  bool res = IOBinary::readFileHeader(out, file, unusedBits);
-  if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
-  }
-
-  file.close();
-  return res;
+  return IOBinary::readContent(out, file);
 }
 
 auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) -> bool {
@@ -260,8 +263,11 @@ auto IOBinary::writePerceptionsHeader(types::Haptics &haptic, std::vector<bool>
   return true;
 }
 
-auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits)
+auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBits, int depth)
     -> types::Effect {
+  if (depth > MAX_EFFECT_NESTING) {
+    throw std::out_of_range("effects nested too deeply");
+  }
   types::Effect effect = types::Effect();
   auto id = IOBinaryPrimitives::readNBits<int, EFFECT_ID>(file, unusedBits);
   auto position = IOBinaryPrimitives::readNBits<int, EFFECT_POSITION>(file, unusedBits);
@@ -306,7 +312,7 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<unsigned short, EFFECT_TIMELINE_COUNT>(file, unusedBits);
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
-    auto timelineEffect = readLibraryEffect(file, unusedBits);
+    auto timelineEffect = readLibraryEffect(file, unusedBits, depth + 1);
     effect.addTimelineEffect(timelineEffect);
   }
   return effect;
@@ -774,7 +780,7 @@ auto IOBinary::readFileBody(types::Haptics &haptic, std::istream &file,
         myBand = myChannel.getBandAt(bandIndex);
         if (!IOBinaryBands::readBandHeader(myBand, file, unusedBits,
                                            haptic.getTimescaleOrDefault())) {
-          continue;
+          return false;
         }
 
         if (!IOBinaryBands::readBandBody(myBand, file, unusedBits,
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 3f58eb1..c26514d 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -44,14 +44,14 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
   band.setBandType(static_cast<types::BandType>(bandType));
-  int blockLength_samp = 0;
+  double blockLength_samp = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
     band.setCurveType(static_cast<types::CurveType>(curveType));
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
-    blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
+    blockLength_samp = pow(2, blockLength_code + 4);
   }
 
   auto lowerFrequencyLimit =
@@ -63,8 +63,11 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
-    auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
-    band.setBlockLength(blockLength_ticks);
+    auto blockLength_ticks = std::floor(blockLength_samp * timescale / upperFrequencyLimit);
+    if (!(blockLength_ticks <= std::numeric_limits<int>::max())) {
+      return false;
+    }
+    band.setBlockLength(static_cast<int>(blockLength_ticks));
   }
   auto effectCount = IOBinaryPrimitives::readNBits<uint16_t, MDBAND_EFFECT_COUNT>(file, unusedBits);
   for (unsigned int i = 0; i < effectCount; i++) {
@@ -120,7 +123,11 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
       // the block length is already in ticks
-      position = effectIndex * band.getBlockLengthOrDefault();
+      auto blockPosition = static_cast<int64_t>(effectIndex) * band.getBlockLengthOrDefault();
+      if (blockPosition > std::numeric_limits<int>::max()) {
+        return false;
+      }
+      position = static_cast<int>(blockPosition);
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
@@ -128,7 +135,9 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
@@ -413,7 +422,10 @@ auto IOBinaryBands::writeReferenceEffect(types::Effect &effect, std::vector<bool
 }
 
 auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band, std::istream &file,
-                                       std::vector<bool> &unusedBits) -> bool {
+                                       std::vector<bool> &unusedBits, int depth) -> bool {
+  if (depth > MAX_EFFECT_NESTING) {
+    return false;
+  }
   auto timelineEffectCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_TIMELINE_COUNT>(file, unusedBits);
 
@@ -428,7 +440,9 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
     if (effectType == types::EffectType::Reference) {
       readReferenceEffect(myEffect, file, unusedBits);
     } else if (effectType == types::EffectType::Composite) {
-      readTimelineEffect(myEffect, band, file, unusedBits);
+      if (!readTimelineEffect(myEffect, band, file, unusedBits, depth + 1)) {
+        return false;
+      }
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-- 
2.43.0


From 9fbe14bbb8e07ed9ea7a5dbd77e869ea5ec45279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 044/107] fix: write vectorial keyframes without a position to
 a binary file

---
 source/IOHaptics/src/IOBinaryBands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index c26514d..b01bb41 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -355,7 +355,7 @@ auto IOBinaryBands::writeVectorialEffect(types::Effect &effect, std::vector<bool
       IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
           amplitude, output, -MAX_AMPLITUDE, MAX_AMPLITUDE);
     }
-    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value() *
+    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value_or(0) *
                                           1); // TODO: convert from MS to ticks
     IOBinaryPrimitives::writeNBits<uint16_t, KEYFRAME_POSITION>(position, output);
 
-- 
2.43.0


From 926b1dd415c0730f5b5a4075257c08f60c1f6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 045/107] fix: read the body part mask of an OHM file without
 sign extension

---
 source/Tools/src/OHMData.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..ad0dac1 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -120,9 +120,12 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
 
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
-      channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+      uint32_t bodyPartMask = 0;
+      for (auto byte : bodyPartMaskBytes) {
+        // a negative char must not extend its sign over the other bytes
+        bodyPartMask = (bodyPartMask << oneByteShift) | static_cast<uint8_t>(byte);
+      }
+      channel.bodyPartMask = static_cast<Body>(bodyPartMask);
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From 0936c45ba6a2218663723775e2323a8d13494abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 046/107] fix: refuse truncated OHM files and replace the
 content of a reused object

---
 source/Tools/src/OHMData.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index ad0dac1..8532af8 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -83,6 +83,8 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   std::reverse(numElementsBytes.begin(), numElementsBytes.end());
   memcpy(&numElements, &numElementsBytes, sizeof(numElements));
 
+  elementsMetadata.clear();
+
   // Get the file description
   std::array<char, descriptionByteSize> descriptionBytes{};
   file.read(descriptionBytes.data(), descriptionByteSize);
@@ -127,10 +129,21 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
       }
       channel.bodyPartMask = static_cast<Body>(bodyPartMask);
 
+      if (!file) {
+        break;
+      }
       element.channelsMetadata.push_back(channel);
     }
+    if (!file) {
+      break;
+    }
     elementsMetadata.push_back(element);
   }
+  if (!file) {
+    std::cerr << filePath << ": File too short" << std::endl;
+    file.close();
+    return false;
+  }
   file.close();
   return true;
 }
-- 
2.43.0


From 1b4701082eb545e9e5dd4c8af138191da561c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 047/107] fix: do not write more characters than a stream text
 field announces

---
 source/IOHaptics/src/IOStream.cpp | 86 ++++---------------------------
 1 file changed, 9 insertions(+), 77 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9ccdd52..9ad2bab 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -902,45 +902,16 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
 }
 
 auto IOStream::writeMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool {
-  std::bitset<MDEXP_VERSION> versionCountBits(haptic.getVersion().size());
-  const std::string versionCountStr = versionCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(versionCountStr, bitstream);
-  for (auto c : haptic.getVersion()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getVersion(), bitstream);
 
-  std::bitset<MDEXP_PROFILE_SIZE> profileCountBits(haptic.getProfile().size());
-  const std::string profileCountStr = profileCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(profileCountStr, bitstream);
-  for (auto c : haptic.getProfile()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getProfile(), bitstream);
 
   std::bitset<MDEXP_LEVEL> levelBits(haptic.getLevel());
   std::string levelStr = levelBits.to_string();
   IOBinaryPrimitives::writeStrBits(levelStr, bitstream);
 
-  std::bitset<MDEXP_DATE> dateCountBits(haptic.getDate().size());
-  std::string dateCountStr = dateCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(dateCountStr, bitstream);
-  for (auto c : haptic.getDate()) {
-    std::bitset<BYTE_SIZE> cBits(c);
-    const std::string cStr = cBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
-  std::bitset<MDEXP_DESC_SIZE> descSizeBits(haptic.getDescription().length());
-  const std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : haptic.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    const std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(haptic.getDate(), bitstream);
+  IOBinaryPrimitives::writeString(haptic.getDescription(), bitstream);
 
   std::bitset<MDEXP_PERC_COUNT> perceCountBits(haptic.getPerceptionsSize());
   std::string perceCountStr = perceCountBits.to_string();
@@ -1009,15 +980,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
 
   if (static_cast<int>(avatar.getType()) == 0) {
     std::string mesh = avatar.getMesh().value();
-    std::bitset<AVATAR_MESH_COUNT> avatarMeshCountBits(mesh.size());
-    std::string avatarMeshCountStr = avatarMeshCountBits.to_string();
-    IOBinaryPrimitives::writeStrBits(avatarMeshCountStr, bitstream);
-
-    for (char &c : mesh) {
-      std::bitset<BYTE_SIZE> descBits(c);
-      std::string cStr = descBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(mesh, bitstream);
   }
   return true;
 }
@@ -1049,15 +1012,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
   std::string percePriorityStr = percePriorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(percePriorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.perception.getDescription().size());
-  std::string descSizeStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(descSizeStr, bitstream);
-
-  for (char &c : swriter.perception.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.perception.getDescription(), bitstream);
 
   std::bitset<MDPERCE_MODALITY> modalityBits(
       static_cast<int>(swriter.perception.getPerceptionModality()));
@@ -1077,14 +1032,7 @@ auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool>
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, bitstream);
-    std::bitset<MDPERCE_SCHEME_LENGTH> schemeLengthBits(schemeStr.size());
-    std::string shemeLengthStr = schemeLengthBits.to_string();
-    IOBinaryPrimitives::writeStrBits(shemeLengthStr, bitstream);
-    for (auto c : schemeStr) {
-      std::bitset<MDPERCE_SCHEME_CHAR> cBits(c);
-      const std::string cStr = cBits.to_string();
-      IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-    }
+    IOBinaryPrimitives::writeString(schemeStr, bitstream);
   } else {
     std::bitset<MDPERCE_FLAG_SEMANTIC> flagSemanticBits(0);
     std::string flagSemanticStr = flagSemanticBits.to_string();
@@ -1369,15 +1317,7 @@ auto IOStream::writeReferenceDevice(types::ReferenceDevice &refDevice, std::vect
   std::string idStr = idBits.to_string();
   IOBinaryPrimitives::writeStrBits(idStr, bitstream);
 
-  std::bitset<REFDEV_NAME_LENGTH> nameLengthBits(refDevice.getName().size());
-  std::string nameLengthStr = nameLengthBits.to_string();
-  IOBinaryPrimitives::writeStrBits(nameLengthStr, bitstream);
-
-  for (char &c : refDevice.getName()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    std::string cStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(cStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(refDevice.getName(), bitstream);
 
   std::bitset<REFDEV_BODY_PART_MASK> bodyPartMaskBits(refDevice.getBodyPartMask().value_or(0));
   std::string bodypartMaskStr = bodyPartMaskBits.to_string();
@@ -1606,15 +1546,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
   std::string priorityStr = priorityBits.to_string();
   IOBinaryPrimitives::writeStrBits(priorityStr, bitstream);
 
-  std::bitset<MDPERCE_DESC_SIZE> descSizeBits(swriter.channel.getDescription().size());
-  valueStr = descSizeBits.to_string();
-  IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-
-  for (char &c : swriter.channel.getDescription()) {
-    std::bitset<BYTE_SIZE> descBits(c);
-    valueStr = descBits.to_string();
-    IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-  }
+  IOBinaryPrimitives::writeString(swriter.channel.getDescription(), bitstream);
 
   std::bitset<REFDEV_ID> refDevID(swriter.channel.getReferenceDeviceId().value_or(-1));
   valueStr = refDevID.to_string();
-- 
2.43.0


From afcee193f910376e2fc0d79a2fd8f7265ecf7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 048/107] fix: stream a custom avatar without mesh

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9ad2bab..135b022 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -979,7 +979,7 @@ auto IOStream::writeAvatar(types::Avatar &avatar, std::vector<bool> &bitstream)
   IOBinaryPrimitives::writeStrBits(avatarTypeStr, bitstream);
 
   if (static_cast<int>(avatar.getType()) == 0) {
-    std::string mesh = avatar.getMesh().value();
+    std::string mesh = avatar.getMesh().value_or("");
     IOBinaryPrimitives::writeString(mesh, bitstream);
   }
   return true;
-- 
2.43.0


From c531e58d02c56344fd981cc535c189e69c6687bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 049/107] fix: insert effects in a band by binary search

---
 source/Types/src/Band.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..e3b2ef2 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -87,9 +87,10 @@ auto Band::getEffectsSize() -> size_t { return effects.size(); }
 auto Band::getEffectAt(int index) -> haptics::types::Effect & { return effects.at(index); }
 
 auto Band::addEffect(Effect &newEffect) -> void {
-  auto it = std::find_if(effects.begin(), effects.end(), [newEffect](Effect &e) {
-    return e.getPosition() > newEffect.getPosition();
-  });
+  // the effects are ordered by position: no need to look at each of them
+  auto it = std::upper_bound(
+      effects.begin(), effects.end(), newEffect,
+      [](const Effect &a, const Effect &b) { return a.getPosition() < b.getPosition(); });
 
   effects.insert(it, newEffect);
 }
-- 
2.43.0


From b9d074e5a8c9c6dd0b17395cfc9fec64afe5967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 050/107] fix: do not merge effects that differ in semantic or
 wavelet data when refactoring

---
 source/Types/src/Effect.cpp     | 3 ++-
 source/Types/src/Perception.cpp | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..2df4ce1 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -163,7 +163,8 @@ auto Effect::addKeyframe(std::optional<int> position, std::optional<double> ampl
 
 auto Effect::isEquivalent(Effect &effect) -> bool {
   if (effectType != EffectType::Basis || effect.effectType != EffectType::Basis ||
-      phase != effect.getPhase() || baseSignal != effect.getBaseSignal()) {
+      phase != effect.getPhase() || baseSignal != effect.getBaseSignal() ||
+      semantic != effect.getSemantic() || waveletBitstream != effect.getWaveletBitstream()) {
     return false;
   }
 
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..7d3a21a 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -369,6 +369,9 @@ auto Perception::searchForEquivalentEffects(Effect &effect, int startingChannel)
     auto numBands2 = static_cast<int>(channel2.getBandsSize());
     for (int m = 0; m < numBands2; m++) {
       auto band2 = channel2.getBandAt(m);
+      if (band2.getBandType() == BandType::WaveletWave) {
+        continue;
+      }
       auto numEffects2 = static_cast<int>(band2.getEffectsSize());
       for (int n = 0; n < numEffects2; n++) {
         if (effect.isEquivalent(band2.getEffectAt(n))) {
-- 
2.43.0


From 273bf7522e15241bc2a23bede560f926e7391d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 051/107] fix: give refactored effects an id that is free in
 the library

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 7d3a21a..8d184ee 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -342,6 +342,9 @@ auto Perception::refactorEffects() -> void {
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
           auto newId = static_cast<int>(getEffectLibrarySize());
+          while (getEffectById(newId).has_value()) {
+            newId++;
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From d1441ca8bb6a7fbfbbe05e3a2c2634e834a5ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 052/107] fix: expand nested library references when
 linearizing

---
 source/Types/include/Perception.h |  3 +++
 source/Types/src/Perception.cpp   | 37 +++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..bd566a1 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -158,6 +158,9 @@ public:
   auto getEffectById(int id) -> std::optional<Effect>;
 
 private:
+  auto expandReferences(Effect &effect, std::vector<int> &openIds) -> void;
+
+  static constexpr size_t MAX_REFERENCE_DEPTH = 256;
   static constexpr int8_t DEFAULT_UNIT_EXPONENT = -3;
   static constexpr int8_t DEFAULT_PERCEPTION_UNIT_EXPONENT = 0;
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 8d184ee..6edf26c 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -311,21 +312,39 @@ auto Perception::linearizeLibrary() -> void {
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
         auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
-        }
+        std::vector<int> openIds;
+        expandReferences(effect, openIds);
+        getChannelAt(i).getBandAt(j).replaceEffectAt(k, effect);
       }
     }
   }
   effectLibrary.clear();
 }
 
+auto Perception::expandReferences(Effect &effect, std::vector<int> &openIds) -> void {
+  const auto numOpenIds = openIds.size();
+  // a reference may lead to another one: the ids met are kept to stop on a circular definition
+  while (effect.getEffectType() == EffectType::Reference) {
+    const auto id = effect.getId();
+    auto refEffect = getEffectById(id);
+    if (!refEffect.has_value() || openIds.size() >= MAX_REFERENCE_DEPTH ||
+        std::find(openIds.begin(), openIds.end(), id) != openIds.end()) {
+      break;
+    }
+    openIds.push_back(id);
+    const auto position = effect.getPosition();
+    effect = refEffect.value();
+    effect.setPosition(position);
+    if (effect.getEffectType() != EffectType::Reference) {
+      effect.setId(-1);
+    }
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    expandReferences(effect.getTimelineEffectAt(i), openIds);
+  }
+  openIds.resize(numOpenIds);
+}
+
 auto Perception::refactorEffects() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
     auto channel = getChannelAt(i);
-- 
2.43.0


From ab25937d8cd82c580ade9497c60837859de83e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 053/107] fix: endless loop on a transient keyframe without
 amplitude

---
 source/Types/src/Effect.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2df4ce1..20b17b9 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -322,7 +322,7 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
   auto it = std::find_if(keyframes.rbegin(), keyframes.rend(), checkingFunction);
 
   double res = 0;
-  while (it != keyframes.rend() && checkingFunction(*it)) {
+  for (; it != keyframes.rend() && checkingFunction(*it); it++) {
     if (!it->getAmplitudeModulation().has_value()) {
       continue;
     }
@@ -330,7 +330,6 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
     res += std::sin(4 * M_PI * (relativePosition - it->getRelativePosition().value()) /
                     transientDuration) *
            it->getAmplitudeModulation().value();
-    it++;
   }
 
   return res;
-- 
2.43.0


From a9e487380583af88c1f263e3038c13d9b63feae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 054/107] fix: keep the phase continuous in vectorial waves

---
 source/Types/src/Effect.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20b17b9..2489f1e 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -250,11 +250,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / static_cast<double>(timescale) *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
@@ -292,6 +292,10 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // phi already holds the phase reached at this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().has_value()
+                              ? frequencyKeyframeIt->getRelativePosition().value()
+                              : 0;
     }
   }
 
-- 
2.43.0


From b19f6f8a57141d79e337599e4fc7aaa4da4ae6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 055/107] fix: effects without keyframe position or before
 their samples

---
 source/Types/src/Effect.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2489f1e..910a4b5 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -309,7 +309,7 @@ auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) ->
   int index = std::floor(relativePosition);
 
   auto samples = this->getWaveletSamples();
-  if (index >= (int)samples.size()) {
+  if (index < 0 || index >= (int)samples.size()) {
     return 0;
   }
   return samples[index];
@@ -412,6 +412,9 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From 637e34d4f2e49507dd7fbe7b25c865b45fcb0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 056/107] fix: evaluate a band without effect

---
 source/Types/src/Band.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index e3b2ef2..5af6c1c 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -242,14 +242,11 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         bandAmp[ti] = 0;
       } // TODO: TRANSIENT_DURATION_MS: should it be transformed to ticks?
 
-      for (auto it = effects.end() - 1; it >= effects.begin(); it--) {
+      for (auto it = effects.rbegin(); it != effects.rend(); it++) {
         if (it->getPosition() <= position) {
           bandAmp[ti] +=
               EvaluationSwitch(position, &*it, lowerFrequencyLimit, upperFrequencyLimit, timescale);
         }
-        if (it == effects.begin()) {
-          break;
-        }
       }
     }
     break;
-- 
2.43.0


From 4d480de2ebb4ef9c0ba220412711fb873bb38c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 057/107] fix: limit the sum of the bands, not each partial sum

---
 source/Types/src/Channel.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..5a32a27 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -192,12 +192,14 @@ auto Channel::EvaluateChannel(uint32_t sampleCount, int fs, int pad, unsigned in
     std::vector<double> bandAmp = b.EvaluationBand(sampleCount, fs, pad, timescale);
     for (uint32_t i = 0; i < bandAmp.size(); i++) {
       channelAmp[i] += bandAmp[i];
-      if (channelAmp[i] < -1) {
-        channelAmp[i] = -1;
-      }
-      if (channelAmp[i] > 1) {
-        channelAmp[i] = 1;
-      }
+    }
+  }
+  for (double &amp : channelAmp) {
+    if (amp < -1) {
+      amp = -1;
+    }
+    if (amp > 1) {
+      amp = 1;
     }
   }
   return channelAmp;
-- 
2.43.0


From 77f1e6ec062c2a5ae2a34155d3b9ab1d9dc7eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 058/107] fix: evaluate curve effects at their position and
 with any keyframes

---
 source/Tools/src/Tools.cpp |  5 +--
 source/Types/src/Band.cpp  | 66 +++++++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..59a2aef 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Tools/include/Tools.h>
+#include <algorithm>
 #include <cmath>
 
 namespace haptics::tools {
@@ -342,9 +343,9 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
 
   for (int m = 1; m < n; m++) {
     while (X1[2][2] < m) {
-      t0 = t0 + (1 / static_cast<double>(n)) / BSPLINE_STEP;
+      t0 = std::min(t0 + (1 / static_cast<double>(n)) / BSPLINE_STEP, 1.0);
       k = 0;
-      while (t0 >= t[k]) {
+      while (k < p && t0 >= t[k]) {
         k = k + 1;
       }
       X1[0][0] = points[k - 3].first;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 5af6c1c..0bd481f 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -34,6 +34,7 @@
 #include <Tools/include/Tools.h>
 #include <Types/include/Band.h>
 #include <algorithm>
+#include <cmath>
 
 namespace haptics::types {
 
@@ -175,21 +176,37 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
-      std::vector<std::pair<int, double>> keyframes(
-          e.getKeyframesSize()); // keyframes converted to position relative to fs
+      // keyframes converted to position relative to fs, the first one being at 0
+      std::vector<std::pair<int, double>> keyframes;
+      int64_t firstPosition = 0;
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
-        if (i > 0) {
-          keyframes[i].first -= keyframes[0].first;
+        if (!myKeyframe.getRelativePosition().has_value() ||
+            !myKeyframe.getAmplitudeModulation().has_value()) {
+          continue;
+        }
+        // assuming position in ticks as input
+        const int64_t keyframePosition =
+            static_cast<int64_t>(myKeyframe.getRelativePosition().value()) * fs / timescale;
+        const double amplitude = myKeyframe.getAmplitudeModulation().value();
+        if (keyframes.empty()) {
+          firstPosition = keyframePosition;
+        }
+        const auto samplePosition = static_cast<int>(keyframePosition - firstPosition);
+        if (keyframes.empty() || samplePosition > keyframes.back().first) {
+          keyframes.emplace_back(samplePosition, amplitude);
+        } else { // same sample as the previous keyframe
+          keyframes.back().second = amplitude;
         }
-        keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
       }
-      keyframes[0].first = 0;
-      std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-      if (keyframes.size() == 2) {
+      if (keyframes.empty()) {
+        continue;
+      }
+      std::vector<double> effectAmp;
+      if (keyframes.size() == 1) {
+        effectAmp = {keyframes[0].second};
+      } else if (keyframes.size() == 2) {
         effectAmp = haptics::tools::linearInterpolation2(keyframes);
       } else {
         switch (getCurveTypeOrDefault()) {
@@ -212,20 +229,23 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
+      }
 
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      int64_t count = 0;
+      // position converted from ticks to samples rel. to fs
+      int64_t position =
+          firstPosition +
+          static_cast<int64_t>(std::floor(static_cast<double>(e.getPosition()) * fs / timescale +
+                                          static_cast<double>(pad) * fs / S_2_MS));
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int64_t i = position; (i < static_cast<int64_t>(sampleCount)) &&
+                                 (count < static_cast<int64_t>(effectAmp.size()));
+           i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From 867cffdfd4ce792f050bca3235ac9597ee5e4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 059/107] fix: length of a band whose last effect is not the
 last to end

---
 source/Types/src/Band.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 0bd481f..abba623 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -275,12 +275,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 }
 
 auto Band::getBandTimeLength(unsigned int timescale) -> double {
-  if (this->effects.empty()) {
-    return 0;
+  double length = 0;
+  for (auto &effect : this->effects) {
+    length = std::max(length, effect.getPosition() + effect.getEffectTimeLength(
+                                                         this->getBandType(),
+                                                         Band::getTransientDuration(timescale)));
   }
-  return this->effects.back().getPosition() +
-         this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                  Band::getTransientDuration(timescale));
+  return length;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From bfb838cdc0097d858a03c737f76ecdf4811265f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 060/107] fix: use the timescale for the end of transients in
 Band::Evaluate

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index abba623..a763f23 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -129,7 +129,8 @@ auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLim
   if (effects.empty() ||
       ((this->bandType != types::BandType::WaveletWave) &&
        (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
+                       effects.back().getEffectTimeLength(bandType,
+                                                          Band::getTransientDuration(timescale)) ||
         position < 0))) {
     return 0;
   }
-- 
2.43.0


From f8b2d13f19395a03887bccab202f17aef8196aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 061/107] fix: padding and missing timescale when playing a
 file

---
 source/Synthesizer/src/Helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 04b8a82..5e872b5 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -49,7 +49,7 @@ namespace haptics::synthesizer {
   types::Effect effect;
   double maxLength = 0;
   double currentLength = 0;
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t perceptionIndex = 0; perceptionIndex < haptic.getPerceptionsSize();
        perceptionIndex++) {
     perception = haptic.getPerceptionAt((int)perceptionIndex);
@@ -95,11 +95,11 @@ namespace haptics::synthesizer {
   }
   std::vector<std::vector<double>> amplitudes;
 
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength + 2 * pad) / timescale));
+      auto sampleCount = static_cast<uint32_t>(std::round(fs * (timeLength / timescale + 2 * pad * MS_2_S)));
       myChannel = haptic.getPerceptionAt((int)i).getChannelAt((int)j);
       std::vector<double> channelAmp = myChannel.EvaluateChannel(sampleCount, fs, pad, timescale);
       const double perceptionUnitFactor =
-- 
2.43.0


From 935af74ddf8810a988ce688dbc6daa9bce200339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 062/107] fix: replace the priority and the reference device
 with the other metadata

---
 source/Types/include/Band.h       | 2 +-
 source/Types/include/Channel.h    | 4 ++--
 source/Types/include/Perception.h | 2 +-
 source/Types/src/Band.cpp         | 2 +-
 source/Types/src/Channel.cpp      | 5 +++--
 source/Types/src/Haptics.cpp      | 1 +
 source/Types/src/Perception.cpp   | 7 +++----
 7 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index 5928047..e0a2d61 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -72,7 +72,7 @@ public:
   auto setBandType(BandType newBandType) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getCurveTypeOrDefault() const -> CurveType;
   [[nodiscard]] auto getCurveType() const -> std::optional<CurveType>;
   auto setCurveType(CurveType newCurveType) -> void;
diff --git a/source/Types/include/Channel.h b/source/Types/include/Channel.h
index 661aeb3..4eadbef 100644
--- a/source/Types/include/Channel.h
+++ b/source/Types/include/Channel.h
@@ -76,7 +76,7 @@ public:
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getGain() const -> float;
   auto setGain(float newGain) -> void;
   [[nodiscard]] auto getMixingWeight() const -> float;
@@ -84,7 +84,7 @@ public:
   [[nodiscard]] auto getBodyPartMask() const -> uint32_t;
   auto setBodyPartMask(uint32_t newBodyPartMask) -> void;
   [[nodiscard]] auto getReferenceDeviceId() const -> std::optional<int>;
-  auto setReferenceDeviceId(int newReferenceDeviceId) -> void;
+  auto setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void;
   auto getVerticesSize() -> size_t;
   auto getVertexAt(int index) -> int &;
   auto addVertex(int &newVertice) -> void;
diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index bd566a1..330172e 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -118,7 +118,7 @@ public:
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getPerceptionModality() const -> PerceptionModality;
   auto setPerceptionModality(PerceptionModality newPerceptionModality) -> void;
   [[nodiscard]] auto getUnitExponent() const -> std::optional<int8_t>;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a763f23..32df11e 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -48,7 +48,7 @@ auto Band::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Band::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Band::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Band::getCurveTypeOrDefault() const -> CurveType {
   if (curveType.has_value()) {
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index 5a32a27..c6a9cde 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -50,7 +50,7 @@ auto Channel::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Channel::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Channel::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Channel::getGain() const -> float { return gain; }
 
@@ -67,7 +67,7 @@ auto Channel::setBodyPartMask(uint32_t newBodyPartMask) -> void { bodyPartMask =
 [[nodiscard]] auto Channel::getReferenceDeviceId() const -> std::optional<int> {
   return referenceDeviceId;
 }
-auto Channel::setReferenceDeviceId(int newReferenceDeviceId) -> void {
+auto Channel::setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void {
   referenceDeviceId = newReferenceDeviceId;
 }
 
@@ -96,6 +96,7 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
     return false;
   }
   bands[index].setBandType(newBand.getBandType());
+  bands[index].setPriority(newBand.getPriority());
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
   }
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index 13dc474..36989b1 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -78,6 +78,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
+  perceptions[index].setPriority(newPerception.getPriority());
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 6edf26c..a1ee535 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -72,7 +72,7 @@ auto Perception::getPriorityOrDefault() const -> int {
   return 0;
 }
 
-auto Perception::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Perception::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Perception::getPerceptionModality() const -> PerceptionModality {
   return perceptionModality;
@@ -126,6 +126,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   channels[index].setId(newChannel.getId());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
+  channels[index].setPriority(newChannel.getPriority());
   channels[index].setGain(newChannel.getGain());
   channels[index].setMixingWeight(newChannel.getMixingWeight());
   channels[index].setBodyPartMask(newChannel.getBodyPartMask());
@@ -133,9 +134,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   for (auto i = 0; i < static_cast<int>(newChannel.getVerticesSize()); i++) {
     channels[index].addVertex((newChannel.getVertexAt(i)));
   }
-  if (newChannel.getReferenceDeviceId().has_value()) {
-    channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId().value());
-  }
+  channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId());
   channels[index].setFrequencySampling(newChannel.getFrequencySampling());
   channels[index].setSampleCount(newChannel.getSampleCount());
   channels[index].setDirection(newChannel.getDirection());
-- 
2.43.0


From 37c323529bbfb9a70d7ccfe6ef5d196c9b58d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 063/107] fix: count the last wavelet block in the length of a
 band

---
 source/Types/src/Band.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 32df11e..746d741 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -278,9 +278,12 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 auto Band::getBandTimeLength(unsigned int timescale) -> double {
   double length = 0;
   for (auto &effect : this->effects) {
-    length = std::max(length, effect.getPosition() + effect.getEffectTimeLength(
-                                                         this->getBandType(),
-                                                         Band::getTransientDuration(timescale)));
+    // wavelet effects have no keyframe: they last one block
+    double effectLength = bandType == BandType::WaveletWave
+                              ? getBlockLengthOrDefault()
+                              : effect.getEffectTimeLength(bandType,
+                                                           Band::getTransientDuration(timescale));
+    length = std::max(length, effect.getPosition() + effectLength);
   }
   return length;
 }
-- 
2.43.0


From 9eec354c888b6cd8876c78fed5c3b5c3e3baefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 064/107] fix: replace absent perception metadata by absent
 metadata

---
 source/Types/include/Perception.h | 2 +-
 source/Types/src/Haptics.cpp      | 9 +++------
 source/Types/src/Perception.cpp   | 3 ++-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 330172e..6ecccee 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -111,7 +111,7 @@ public:
   auto setAvatarId(int newAvatarId) -> void;
   [[nodiscard]] auto getEffectSemanticSchemeOrDefault() const -> std::string;
   [[nodiscard]] auto getEffectSemanticScheme() const -> std::optional<std::string>;
-  auto setEffectSemanticScheme(std::string &newEffectSemantic) -> void;
+  auto setEffectSemanticScheme(const std::optional<std::string> &newEffectSemantic) -> void;
   [[nodiscard]] auto getId() const -> int;
   auto setId(int newId) -> void;
   [[nodiscard]] auto getDescription() const -> std::string;
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index 36989b1..c3d78cc 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -80,12 +80,9 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setDescription(desc);
   perceptions[index].setPriority(newPerception.getPriority());
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-  perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
-  perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  if (newPerception.getEffectSemanticScheme().has_value()) {
-    auto semantic = newPerception.getEffectSemanticScheme().value();
-    perceptions[index].setEffectSemanticScheme(semantic);
-  }
+  perceptions[index].setUnitExponent(newPerception.getUnitExponent());
+  perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponent());
+  perceptions[index].setEffectSemanticScheme(newPerception.getEffectSemanticScheme());
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index a1ee535..2969e30 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -54,7 +54,8 @@ auto Perception::setAvatarId(int newAvatarId) -> void { avatarId = newAvatarId;
 [[nodiscard]] auto Perception::getEffectSemanticScheme() const -> std::optional<std::string> {
   return effectSemanticScheme;
 }
-auto Perception::setEffectSemanticScheme(std::string &newEffectSemantic) -> void {
+auto Perception::setEffectSemanticScheme(const std::optional<std::string> &newEffectSemantic)
+    -> void {
   effectSemanticScheme = newEffectSemantic;
 }
 
-- 
2.43.0


From 79f3b168af448e6d82beb3753f7fd25b10d94916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 065/107] fix: interpolate up to the last point when it closes
 a short segment

---
 source/Tools/src/Tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 59a2aef..5aac5a3 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -98,7 +98,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -118,7 +118,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -397,7 +397,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   int i = 0;
   double amp = 0;
 
-  while (t < points.back().first) {
+  while (t <= points.back().first && i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
-- 
2.43.0


From e87e21a1762cd02a159644b47f13d31b444231f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 066/107] fix: read AHAP parameter curves in time order, at
 rounded times

---
 source/Encoder/src/AhapEncoder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index a823764..f323eb7 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -116,6 +116,13 @@ namespace haptics::encoder {
     }
   }
 
+  // THE CURVES MAY BE GIVEN IN ANY ORDER
+  auto isBefore = [](const std::pair<int, double> &a, const std::pair<int, double> &b) {
+    return a.first < b.first;
+  };
+  std::stable_sort(amplitudes.begin(), amplitudes.end(), isBefore);
+  std::stable_sort(frequencies.begin(), frequencies.end(), isBefore);
+
   for (auto &e : pattern) {
 
     if (e.HasMember("Event")) {
@@ -198,8 +205,8 @@ namespace haptics::encoder {
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>((kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) *
-                               (double)timescale);
+    k.first = static_cast<int>(std::round(
+        (kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) * (double)timescale));
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
 
-- 
2.43.0


From 94a1ab1f979074c6cdc295ef64bbab81c5b018c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 067/107] fix: do not read outside the AHAP parameter curve
 around an event

---
 source/Encoder/src/AhapEncoder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index f323eb7..e5988a0 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -367,6 +367,9 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
       std::find_if(amplitudes->begin(), amplitudes->end(), [continuous](std::pair<int, double> a) {
         return a.first >= continuous.getPosition();
       });
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
@@ -384,6 +387,9 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -417,6 +423,9 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   auto first_kf_f = std::find_if(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
@@ -440,6 +449,9 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From dba4dcd54033b83e807d2ef703630349c5fbdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 068/107] fix: add the sharpness of an AHAP event once at its
 end

---
 source/Encoder/src/AhapEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index e5988a0..52d6d5a 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -455,7 +455,7 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-      freq = std::clamp(freq + base_freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
+      freq = std::clamp(freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       lastKeyframe.setFrequencyModulation(static_cast<int>(std::round(
           haptics::tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX,
                                                ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, freq))));
-- 
2.43.0


From 534b173fd1194d3dbe40e2e4be33f46a16200763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 069/107] fix: refuse malformed AHAP events, curves and values
 instead of aborting

---
 source/Encoder/src/AhapEncoder.cpp | 65 +++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 52d6d5a..e6f9db5 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -61,8 +61,27 @@ const double BASE_FREQUENCY_MAX = 1;
 const int ACTUAL_FREQUENCY_MIN = 65;
 const int ACTUAL_FREQUENCY_MAX = 300;
 
+// LARGEST TIME (IN TICKS) AND PARAMETER VALUE TAKEN FROM A FILE
+const double MAX_TICKS = (1 << 30) - 1;
+const double MAX_PARAMETER_VALUE = 1e6;
+
 namespace haptics::encoder {
 
+static auto toTicks(double seconds, unsigned int timescale, int &ticks) -> bool {
+  double value = std::round(seconds * timescale);
+  if (!(std::abs(value) <= MAX_TICKS)) {
+    return false;
+  }
+  ticks = static_cast<int>(value);
+  return true;
+}
+
+static auto isEventParameter(const rapidjson::Value &param) -> bool {
+  return param.IsObject() && param.HasMember("ParameterID") && param["ParameterID"].IsString() &&
+         param.HasMember("ParameterValue") && param["ParameterValue"].IsNumber() &&
+         std::abs(param["ParameterValue"].GetDouble()) <= MAX_PARAMETER_VALUE;
+}
+
 [[nodiscard]] auto AhapEncoder::encode(std::string &filename, haptics::types::Perception &out,
                                        const unsigned int timescale) -> int {
   if (out.getChannelsSize() > 1) {
@@ -97,7 +116,11 @@ namespace haptics::encoder {
 
   // FOR LOOP ON KEYFRAMES
   for (auto &e : pattern) {
-    if (e.HasMember("ParameterCurve")) {
+    if (e.IsObject() && e.HasMember("ParameterCurve")) {
+      if (!e["ParameterCurve"].IsObject() || !e["ParameterCurve"].HasMember("ParameterID")) {
+        std::cerr << "Invalid AHAP input file: invalid ParameterCurve" << std::endl;
+        return EXIT_FAILURE;
+      }
       if (e["ParameterCurve"]["ParameterID"] == "HapticIntensityControl") {
         ret = extractKeyframes(e["ParameterCurve"].GetObject(), &amplitudes, timescale);
         if (ret != 0) {
@@ -125,7 +148,11 @@ namespace haptics::encoder {
 
   for (auto &e : pattern) {
 
-    if (e.HasMember("Event")) {
+    if (e.IsObject() && e.HasMember("Event")) {
+      if (!e["Event"].IsObject() || !e["Event"].HasMember("EventType")) {
+        std::cerr << "Invalid AHAP input file: invalid Event" << std::endl;
+        return EXIT_FAILURE;
+      }
       if (e["Event"]["EventType"] == "HapticTransient") {
         ret = extractTransients(e["Event"].GetObject(), &transients, &amplitudes, &frequencies,
                                 timescale);
@@ -197,7 +224,7 @@ namespace haptics::encoder {
   }
 
   for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
-    if (!kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
+    if (!kahap.IsObject() || !kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
         !kahap.HasMember("ParameterValue") || !kahap["ParameterValue"].IsNumber()) {
       continue;
     }
@@ -205,10 +232,15 @@ namespace haptics::encoder {
     std::pair<int, double> k;
     // TIME + curve offset
 
-    k.first = static_cast<int>(std::round(
-        (kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble()) * (double)timescale));
+    if (!toTicks(kahap["Time"].GetDouble() + parameterCurve["Time"].GetDouble(), timescale,
+                 k.first)) {
+      return EXIT_FAILURE;
+    }
     // VALUE
     k.second = kahap["ParameterValue"].GetDouble();
+    if (std::abs(k.second) > MAX_PARAMETER_VALUE) {
+      return EXIT_FAILURE;
+    }
 
     keyframes->push_back(k);
   }
@@ -227,8 +259,12 @@ namespace haptics::encoder {
     return EXIT_FAILURE;
   }
 
+  int position = 0;
+  if (!toTicks(event["Time"].GetDouble(), timescale, position)) {
+    return EXIT_FAILURE;
+  }
   haptics::types::Effect t =
-      haptics::types::Effect(static_cast<int>(std::round(event["Time"].GetDouble() * timescale)),
+      haptics::types::Effect(position,
                              0, // modif to get from sec2ms to ticks
                              haptics::types::BaseSignal::Sine, haptics::types::EffectType::Basis);
 
@@ -238,6 +274,9 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!isEventParameter(param)) {
+      return EXIT_FAILURE;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
@@ -307,8 +346,14 @@ namespace haptics::encoder {
     return EXIT_FAILURE;
   }
 
+  int position = 0;
+  int duration = 0;
+  if (!toTicks(event["Time"].GetDouble(), timescale, position) ||
+      !toTicks(event["EventDuration"].GetDouble(), timescale, duration)) {
+    return EXIT_FAILURE;
+  }
   haptics::types::Effect c =
-      haptics::types::Effect(static_cast<int>(std::round(event["Time"].GetDouble() * timescale)), 0,
+      haptics::types::Effect(position, 0,
                              haptics::types::BaseSignal::Sine, haptics::types::EffectType::Basis);
 
   haptics::types::Keyframe k_start;
@@ -319,11 +364,13 @@ namespace haptics::encoder {
   k_end.setFrequencyModulation(DEFAULT_FREQUENCY);
   double base_freq = BASE_FREQUENCY_MAX;
 
-  k_end.setRelativePosition(
-      static_cast<int>(std::round(event["EventDuration"].GetDouble() * timescale)));
+  k_end.setRelativePosition(duration);
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!isEventParameter(param)) {
+      return EXIT_FAILURE;
+    }
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-- 
2.43.0


From 1562e4153600342b91cc3b9c560c6aca38ec6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 070/107] fix: keep the enclosing IVS repeat events when
 nesting one in another

---
 source/Encoder/src/IvsEncoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..52a2d5d 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -79,20 +79,20 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
+      RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
       do {
-        if (researchNode.children.empty()) {
+        if (researchNode->children.empty()) {
           break;
         }
 
-        auto lastChild = researchNode.children.back();
+        auto &lastChild = researchNode->children.back();
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
-          researchNode = lastChild;
+          researchNode = &lastChild;
         }
       } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      researchNode->children.push_back(currentNode);
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From 4fcd31be2c599e0cbfaf465efe642658a7b4ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 071/107] fix: give each timeline of an IVS file a channel id
 of its own

---
 source/Encoder/src/IvsEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 52a2d5d..ee00f7e 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -57,7 +57,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     haptics::types::Channel myChannel;
     if (out.getChannelsSize() <= static_cast<size_t>(channelId)) {
       std::string timelineName = IvsEncoder::getName(&timeline);
-      myChannel = haptics::types::Channel(0, timelineName.append(" - ").append(date), 1, 1, 0);
+      myChannel = haptics::types::Channel(channelId, timelineName.append(" - ").append(date), 1, 1, 0);
       out.addChannel(myChannel);
     };
     myChannel = out.getChannelAt(channelId);
-- 
2.43.0


From 5c2512bf1977350f285cc31cd708a1646d09d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 072/107] fix: add up the delays of deeply nested IVS repeat
 events

---
 source/Encoder/include/IvsEncoder.h | 14 +++++++++-----
 source/Encoder/src/IvsEncoder.cpp   |  3 +--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..eac7cf4 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -34,6 +34,7 @@
 #ifndef IVSENCODER_H
 #define IVSENCODER_H
 
+#include <algorithm>
 #include <iostream>
 #include <pugixml.hpp>
 #include <vector>
@@ -130,11 +131,13 @@ private:
       return true;
     }
 
-    auto linearize(std::vector<types::Effect> &effectLibrary, int &delay) -> int {
+    // Returns how much longer the repetitions make the content of this node
+    auto linearize(std::vector<types::Effect> &effectLibrary, int delay) -> int {
       int count = 0;
       int duration = 0;
+      int extension = 0;
       if (value != nullptr) {
-        count = IvsEncoder::getCount(value);
+        count = std::max(IvsEncoder::getCount(value), 0);
         duration = IvsEncoder::getDuration(value);
       }
       auto myEffects_it = myEffects.begin();
@@ -153,7 +156,7 @@ private:
           myEffects_it++;
         } else {
           delay_tmp = children_it->linearize(linearized_effects, delay);
-          duration += delay_tmp;
+          extension += delay_tmp;
           delay += delay_tmp;
           children_it++;
         }
@@ -166,9 +169,10 @@ private:
       }
       for (; children_it < children.end(); children_it++) {
         delay_tmp = children_it->linearize(linearized_effects, delay);
-        duration += delay_tmp;
+        extension += delay_tmp;
         delay += delay_tmp;
       }
+      duration += extension;
 
       for (int i = 0; i <= count; i++) {
         for (types::Effect e : linearized_effects) {
@@ -177,7 +181,7 @@ private:
         }
       }
 
-      return count * duration;
+      return extension + count * duration;
     }
   };
 };
diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index ee00f7e..c363e43 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -111,8 +111,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     }
 
     std::vector<types::Effect> repeatedEffectsSet;
-    int delay = 0;
-    repeatTree.linearize(repeatedEffectsSet, delay);
+    repeatTree.linearize(repeatedEffectsSet, 0);
 
     for (haptics::types::Effect &myEffect : repeatedEffectsSet) {
       IvsEncoder::injectIntoBands(myEffect, myChannel, timescale);
-- 
2.43.0


From c4e3c3bd9745ffc98b5132ebacb6cf59343717f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 073/107] fix: refuse IVS times, periods, waveforms and
 repetitions that cannot be converted

---
 source/Encoder/include/IvsEncoder.h | 26 ++++++++++++++++--
 source/Encoder/src/IvsEncoder.cpp   | 41 ++++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index eac7cf4..cde6c63 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -90,13 +90,17 @@ private:
   auto static isRepeatNested(pugi::xml_node *parent, pugi::xml_node *child) -> bool;
   auto static isRepeatNested(int parent_start, int parent_end, int child_start) -> bool;
   auto static injectIntoBands(types::Effect &effect, types::Channel &channel,
-                              unsigned int timescale) -> void;
+                              unsigned int timescale) -> bool;
   auto static millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int;
   static constexpr float MAGNITUDE_2_AMPLITUDE = .0001F;
   static const int MIN_FREQUENCY = 0;
   static const int MAX_FREQUENCY = 1000;
   static const int MAGSWEEP_FREQUENCY = 170;
   static const int MS_2_SEC = 1000;
+  static const int MAX_TIME = (1 << 29) - 1;
+  static const int MAX_REPEAT_NESTING = 256;
+  static const int MAX_EFFECTS = 1 << 16;
+  auto static isValidTime(int milliseconds, unsigned int timescale) -> bool;
 
   struct RepeatNode {
     pugi::xml_node *value;
@@ -131,6 +135,24 @@ private:
       return true;
     }
 
+    // Counts the effects of the linearized node, and how much longer its repetitions make it,
+    // without building it
+    auto measure(double &effectCount) const -> double {
+      double extension = 0;
+      effectCount = static_cast<double>(myEffects.size());
+      for (const auto &child : children) {
+        double childEffectCount = 0;
+        extension += child.measure(childEffectCount);
+        effectCount += childEffectCount;
+      }
+      if (value == nullptr) {
+        return extension;
+      }
+      double count = std::max(IvsEncoder::getCount(value), 0);
+      effectCount *= count + 1;
+      return extension + count * (std::max(IvsEncoder::getDuration(value), 0) + extension);
+    }
+
     // Returns how much longer the repetitions make the content of this node
     auto linearize(std::vector<types::Effect> &effectLibrary, int delay) -> int {
       int count = 0;
@@ -138,7 +160,7 @@ private:
       int extension = 0;
       if (value != nullptr) {
         count = std::max(IvsEncoder::getCount(value), 0);
-        duration = IvsEncoder::getDuration(value);
+        duration = std::max(IvsEncoder::getDuration(value), 0);
       }
       auto myEffects_it = myEffects.begin();
       auto children_it = children.begin();
diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index c363e43..75fb483 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/IvsEncoder.h>
 #include <Tools/include/Tools.h>
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <limits>
 
@@ -66,6 +67,10 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
         IvsEncoder::getRepeatEvents(&timeline);
     std::vector<pugi::xml_node> sortedRepeatEvents;
     for (pugi::xml_node &repeatEvent : repeatEvents) {
+      if (!isValidTime(getTime(&repeatEvent), timescale) ||
+          !isValidTime(getDuration(&repeatEvent), timescale)) {
+        return EXIT_FAILURE;
+      }
       sortedRepeatEvents.push_back(repeatEvent);
     }
     std::sort(sortedRepeatEvents.begin(), sortedRepeatEvents.end(),
@@ -81,6 +86,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
       RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
+      int nesting = 0;
       do {
         if (researchNode->children.empty()) {
           break;
@@ -90,6 +96,9 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
           researchNode = &lastChild;
+          if (++nesting >= MAX_REPEAT_NESTING) {
+            return EXIT_FAILURE;
+          }
         }
       } while (continue_search);
       researchNode->children.push_back(currentNode);
@@ -110,11 +119,18 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
       }
     }
 
+    double effectCount = 0;
+    if (!(repeatTree.measure(effectCount) <= MAX_TIME) || !(effectCount <= MAX_EFFECTS)) {
+      return EXIT_FAILURE;
+    }
+
     std::vector<types::Effect> repeatedEffectsSet;
     repeatTree.linearize(repeatedEffectsSet, 0);
 
     for (haptics::types::Effect &myEffect : repeatedEffectsSet) {
-      IvsEncoder::injectIntoBands(myEffect, myChannel, timescale);
+      if (!IvsEncoder::injectIntoBands(myEffect, myChannel, timescale)) {
+        return EXIT_FAILURE;
+      }
     }
     out.replaceChannelAt(channelId, myChannel);
     channelId++;
@@ -135,7 +151,10 @@ auto IvsEncoder::isRepeatNested(int parent_start, int parent_end, int child_star
 }
 
 auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
-                                 unsigned int timescale) -> void {
+                                 unsigned int timescale) -> bool {
+  if (!isValidTime(effect.getPosition(), timescale)) {
+    return false;
+  }
   effect.setPosition(IvsEncoder::millisecondsToTimeScale(effect.getPosition(), timescale));
   haptics::types::Band *myBand = channel.findBandAvailable(
       effect.getPosition(),
@@ -148,17 +167,28 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
                                   IvsEncoder::MIN_FREQUENCY, IvsEncoder::MAX_FREQUENCY);
   }
   myBand->addEffect(effect);
+  return true;
 }
 
 [[nodiscard]] auto IvsEncoder::convertToEffect(const pugi::xml_node *basisEffect,
                                                const pugi::xml_node *launchEvent,
                                                haptics::types::Effect *out, unsigned int timescale)
     -> bool {
+  if (!isValidTime(getTime(launchEvent), timescale) ||
+      !isValidTime(getDuration(basisEffect, launchEvent), timescale) ||
+      !isValidTime(getAttackTime(basisEffect), timescale) ||
+      !isValidTime(getFadeTime(basisEffect), timescale)) {
+    return false;
+  }
   int periodLength = IvsEncoder::getPeriod(basisEffect, launchEvent);
   int freq = 0;
   std::string effectType = basisEffect->attribute("type").as_string();
   if (effectType == "periodic") {
-    out->setBaseSignal(IvsEncoder::getWaveform(basisEffect));
+    auto waveform = IvsEncoder::getWaveform(basisEffect);
+    if (periodLength <= 0 || waveform == types::BaseSignal(-1)) {
+      return false;
+    }
+    out->setBaseSignal(waveform);
     freq = static_cast<int>(1.0 / (static_cast<float>(periodLength) * MS_2_S));
   } else if (effectType == "magsweep") {
     out->setBaseSignal(types::BaseSignal::Sine);
@@ -413,6 +443,11 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
   return f;
 }
 
+auto IvsEncoder::isValidTime(int milliseconds, unsigned int timescale) -> bool {
+  return std::abs(static_cast<double>(milliseconds)) <= MAX_TIME &&
+         std::abs(static_cast<double>(milliseconds) * MS_2_S * timescale) <= MAX_TIME;
+}
+
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
   return static_cast<int>(static_cast<double>(milliseconds) * MS_2_S *
                           static_cast<double>(timescale));
-- 
2.43.0


From 2155a1ba618a29b404ab2c7ec22def228d2ccaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 074/107] fix: keep the launched IVS effects in time order
 before repeating them

---
 source/Encoder/include/IvsEncoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index cde6c63..56619fd 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -123,7 +123,7 @@ private:
         }
       }
 
-      auto it = myEffects.end();
+      auto it = myEffects.begin();
       auto it_effects = myEffects.begin();
       int effectPosition = myEffect.getPosition();
       for (; it_effects < myEffects.end(); it_effects++) {
-- 
2.43.0


From a21cd5f04049870db049ae0d4aab93a76cb7a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 075/107] fix: do not repeat an empty IVS repeat event
 endlessly

---
 source/Encoder/include/IvsEncoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 56619fd..e4bf192 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -196,7 +196,7 @@ private:
       }
       duration += extension;
 
-      for (int i = 0; i <= count; i++) {
+      for (int i = 0; !linearized_effects.empty() && i <= count; i++) {
         for (types::Effect e : linearized_effects) {
           e.setPosition(e.getPosition() + i * duration);
           effectLibrary.push_back(e);
-- 
2.43.0


From 6fb67cd50979c7cbbc166907205750b8055d3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 076/107] fix: put the transients of an AHAP file in time order

---
 source/Encoder/src/AhapEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index e6f9db5..80d7f39 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -183,6 +183,10 @@ static auto isEventParameter(const rapidjson::Value &param) -> bool {
   types::Band myBand =
       types::Band(types::BandType::Transient, MIN_AHAP_FREQUENCY, MAX_AHAP_FREQUENCY);
   types::Effect transientEffect;
+  std::stable_sort(transients.begin(), transients.end(),
+                   [](const types::Effect &a, const types::Effect &b) {
+                     return a.getPosition() < b.getPosition();
+                   });
   for (types::Effect e : transients) {
     auto pos = e.getPosition();
     for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-- 
2.43.0


From 0456ab2737db52dc75f9958f7c87ff928600e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 077/107] fix: report an output file that cannot be written in
 full

---
 source/IOHaptics/include/IOJson.h | 2 +-
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 source/IOHaptics/src/IOJson.cpp   | 4 +++-
 source/IOHaptics/src/IOStream.cpp | 2 +-
 source/Tools/src/OHMData.cpp      | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index 31eae46..e7cfcb1 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -161,7 +161,7 @@ public:
   static auto extractSyncs(types::Haptics &haptic, rapidjson::Value &jsonSyncs,
                            rapidjson::Document &jsonTree) -> void;
 
-  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> void;
+  static auto writeFile(types::Haptics &haptic, const std::string &filePath) -> bool;
 
   static auto bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
   static auto bits2bytes(std::vector<unsigned char> &in, std::vector<unsigned char> &out) -> void;
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 3b6cbc5..e62123d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -95,7 +95,7 @@ auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) ->
   IOBinaryPrimitives::writeBitset(output, file);
 
   file.close();
-  return res;
+  return res && !file.fail();
 }
 
 auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index ac29886..c610d80 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1276,7 +1276,7 @@ auto IOJson::loadVector(const rapidjson::Value &jsonVector, types::Vector &vecto
   return IOJsonPrimitives::getVector(jsonVector, vector);
 }
 
-auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> void {
+auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &filePath) -> bool {
   auto jsonTree = rapidjson::Document(rapidjson::kObjectType);
   if (versionCheck(haptic.getVersion(), false)) {
     jsonTree.AddMember("version",
@@ -1322,6 +1322,8 @@ auto IOJson::writeFile(haptics::types::Haptics &haptic, const std::string &fileP
   rapidjson::OStreamWrapper osw(file);
   rapidjson::Writer<rapidjson::OStreamWrapper> writer(osw);
   jsonTree.Accept(writer);
+  file.close();
+  return !file.fail();
 }
 
 auto IOJson::extractPerceptions(types::Haptics &haptic, rapidjson::Value &jsonPerceptions,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 135b022..aca04ea 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -69,7 +69,7 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   file.close();
-  return success;
+  return success && !file.fail();
 }
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 8532af8..d6aa595 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -213,7 +213,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     }
   }
   file.close();
-  return true;
+  return !file.fail();
 }
 
 [[nodiscard]] auto OHMData::getVersion() const -> short { return version; }
-- 
2.43.0


From 6ed4bcc2ee7888c431d743d7fe532799ba51035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 078/107] fix: report what could not be read or written in the
 exit code of the tools

---
 source/Decoder/src/main.cpp     |  3 +--
 source/Encoder/src/main.cpp     | 12 +++++++++---
 source/Synthesizer/src/main.cpp |  8 ++++++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/Decoder/src/main.cpp b/source/Decoder/src/main.cpp
index f0c41d3..76cc0c8 100644
--- a/source/Decoder/src/main.cpp
+++ b/source/Decoder/src/main.cpp
@@ -100,6 +100,5 @@ auto main(int argc, char *argv[]) -> int {
   //  }
   //}
 
-  IOJson::writeFile(hapticFile, output);
-  return EXIT_SUCCESS;
+  return IOJson::writeFile(hapticFile, output) ? EXIT_SUCCESS : EXIT_FAILURE;
 }
diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 2ce826e..257f130 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -229,6 +229,8 @@ auto main(int argc, char *argv[]) -> int {
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
+      } else {
+        codeExit = EXIT_FAILURE;
       }
 
       if (codeExit == EXIT_SUCCESS) {
@@ -272,7 +274,7 @@ auto main(int argc, char *argv[]) -> int {
     hapticFile.addPerception(myPerception);
   } else if (ext == "hjif") {
     std::cout << "The HJIF file to encode : " << filename << std::endl;
-    IOJson::loadFile(filename, hapticFile);
+    codeExit = IOJson::loadFile(filename, hapticFile) ? EXIT_SUCCESS : EXIT_FAILURE;
   } else {
     codeExit = EXIT_FAILURE;
   }
@@ -295,9 +297,13 @@ auto main(int argc, char *argv[]) -> int {
     if (inputParser.cmdOptionExists("--packet_duration")) {
       packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
     }
-    IOStream::writeFile(hapticFile, output, packetDuration);
+    if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
+      return EXIT_FAILURE;
+    }
   } else {
-    IOJson::writeFile(hapticFile, output);
+    if (!IOJson::writeFile(hapticFile, output)) {
+      return EXIT_FAILURE;
+    }
   }
 
   return codeExit;
diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index 477b6c3..dad77e8 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -133,7 +133,9 @@ auto main(int argc, char *argv[]) -> int {
       return EXIT_FAILURE;
     }
   } else {
-    IOJson::loadFile(filename, hapticFile);
+    if (!IOJson::loadFile(filename, hapticFile)) {
+      return EXIT_FAILURE;
+    }
   }
 
   hapticFile.linearize();
@@ -149,7 +151,9 @@ auto main(int argc, char *argv[]) -> int {
     haptics::tools::OHMData ohm = hapticFile.extractMetadataToOHM(relativeFilename);
     auto ohmPath = outputPath;
     ohmPath.replace_extension(".ohm");
-    ohm.writeFile(ohmPath.string());
+    if (!ohm.writeFile(ohmPath.string())) {
+      return EXIT_FAILURE;
+    }
   }
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 06c7f45f24270c17373991437d35a847815456f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 079/107] fix: refuse a packet duration that is not positive

---
 source/IOHaptics/src/IOStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index aca04ea..99ff365 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -52,6 +52,10 @@ template <class T> static auto toEnum(const std::map<T, std::string> &names, int
 
 auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, int packetDuration)
     -> bool {
+  if (packetDuration <= 0) {
+    std::cerr << packetDuration << ": Invalid packet duration!" << std::endl;
+    return false;
+  }
   std::ofstream file(filePath, std::ios::out | std::ios::binary);
   if (!file) {
     std::cerr << filePath << ": Cannot open file!" << std::endl;
-- 
2.43.0


From 624f11ceb98079bd08348a52d1943e014e95338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 080/107] fix: report a WAV file that cannot be written, and
 convert its negative samples portably

---
 source/Tools/src/WavParser.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..ca692cf 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -80,7 +80,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
   format.channels = 1;
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size());
   std::transform(buff.begin(), buff.end(), b_int.begin(), [](double v) -> uint16_t {
@@ -91,15 +93,19 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     if (v_scaled < -SCALING) {
       return NEG_MAX;
     }
-    return (uint16_t)v_scaled;
+    return (uint16_t)(int16_t)v_scaled;
   });
-  drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
+  auto written = drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == b_int.size();
 }
 
 auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff,
                          int sampleRate) -> bool {
+  if (buff.empty()) {
+    std::cerr << "There is no output channel" << std::endl;
+    return false;
+  }
   size_t s = buff.at(0).size();
   for (uint32_t i = 1; i < buff.size(); i++) {
     if (buff.at(i).size() != s) {
@@ -114,7 +120,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
   format.channels = buff.size();
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
 
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size() * buff.at(0).size());
@@ -127,14 +135,14 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
       } else if (v < -SCALING) {
         b_int.at((i * buff.size()) + c) = NEG_MAX;
       } else {
-        b_int.at((i * buff.size()) + c) = (uint16_t)v;
+        b_int.at((i * buff.size()) + c) = (uint16_t)(int16_t)v;
       }
     }
     c++;
   }
-  drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
+  auto written = drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == b_int.size() / buff.size();
 }
 
 auto WavParser::getSamplerate() const -> uint32_t { return sampleRate; }
-- 
2.43.0


From 282e6c9695595c70726b72ba3e5a17653bc16f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 081/107] fix: refuse a WAV file that cannot be read instead of
 encoding nothing

---
 source/Encoder/src/PcmEncoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index e3d4f4c..2b941cd 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -53,7 +53,9 @@ namespace haptics::encoder {
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
   WavParser wavParser;
-  wavParser.loadFile(filename);
+  if (!wavParser.loadFile(filename)) {
+    return EXIT_FAILURE;
+  }
   size_t numChannels = wavParser.getNumChannels();
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
-- 
2.43.0


From c2ef46cf76b3cdaac272dc90ca9f69d1f6dd1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 082/107] fix: play each wavelet sample at its own time,
 whatever the rounding

---
 source/Types/include/Effect.h | 2 ++
 source/Types/src/Band.cpp     | 6 ++++--
 source/Types/src/Effect.cpp   | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/Types/include/Effect.h b/source/Types/include/Effect.h
index 5f21565..e7d4002 100644
--- a/source/Types/include/Effect.h
+++ b/source/Types/include/Effect.h
@@ -46,6 +46,8 @@ using haptics::types::Keyframe;
 
 namespace haptics::types {
 
+static constexpr double SAMPLE_POSITION_TOLERANCE = 1e-6; // in samples
+
 enum class BaseSignal { Sine = 0, Square = 1, Triangle = 2, SawToothUp = 3, SawToothDown = 4 };
 
 enum class EffectType { Basis = 0, Reference = 1, Composite = 2 };
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 746d741..f0db022 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -252,8 +252,10 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
     break;
   default:
     for (uint32_t ti = 0; ti < sampleCount; ti++) {
-      double position = timescale * (static_cast<double>(ti) / static_cast<double>(fs) -
-                                     (pad * MS_2_S)); // position in ticks needed
+      // position in ticks needed, rounded only once to be exact whenever it is a whole number
+      double position = static_cast<double>(timescale) *
+                        (static_cast<double>(ti) * S_2_MS - static_cast<double>(pad) * fs) /
+                        (static_cast<double>(fs) * S_2_MS);
       if (effects.empty() ||
           ((position > effects.back().getPosition() +
                            effects.back().getEffectTimeLength(
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 910a4b5..51cf015 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -306,7 +306,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
 auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) -> double {
   double relativePosition = (position - this->getPosition()) * (double)fs /
                             (double)timescale; // relative position in samples rel. to fs
-  int index = std::floor(relativePosition);
+  // a position on a sample may be slightly before it once rounded
+  int index = std::floor(relativePosition + SAMPLE_POSITION_TOLERANCE);
 
   auto samples = this->getWaveletSamples();
   if (index < 0 || index >= (int)samples.size()) {
-- 
2.43.0


From e759354a96a8bdec4eacceae09ef63ea99d748b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 083/107] fix: write absent fields of transient and curve
 keyframes as zero instead of aborting

---
 source/IOHaptics/src/IOStream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 99ff365..2652d1e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2539,14 +2539,14 @@ auto IOStream::readKeyframe(std::vector<bool> &bitstream, types::Keyframe &keyfr
 auto IOStream::writeTransient(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
 
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
 
-  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value());
+  std::bitset<KEYFRAME_FREQUENCY> freqBits(keyframe.getFrequencyModulation().value_or(0));
   std::string freqStr = freqBits.to_string();
   IOBinaryPrimitives::writeStrBits(freqStr, bitstream);
   return true;
@@ -2568,9 +2568,9 @@ auto IOStream::readTransient(std::vector<bool> &bitstream, types::Keyframe &keyf
 auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
   std::vector<bool> bufBits = std::vector<bool>();
   IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
-      keyframe.getAmplitudeModulation().value(), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
+      keyframe.getAmplitudeModulation().value_or(0), bufBits, -MAX_AMPLITUDE, MAX_AMPLITUDE);
   bitstream.insert(bitstream.end(), bufBits.begin(), bufBits.end());
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bitstream);
   return true;
-- 
2.43.0


From 6362dae5fe34336b2530e23287c5bf3bf945a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 084/107] fix: interpolate over an empty interval to its end
 instead of NaN

---
 source/Tools/src/Tools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 5aac5a3..ed40c87 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -52,6 +52,10 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     return end_a;
   }
 
+  if (start == end) { // a step
+    return end_a;
+  }
+
   if (start >= end) {
     std::swap(start, end);
     std::swap(start_a, end_a);
-- 
2.43.0


From 8770a68c2447687867bd8b24527eaa1ad68adc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 085/107] fix: leave wavelet blocks of undecodable sizes silent
 instead of reading out of bounds

---
 .../WaveletDecoder/include/WaveletDecoder.h   |  5 ++++
 source/WaveletDecoder/src/WaveletDecoder.cpp  | 26 ++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/source/WaveletDecoder/include/WaveletDecoder.h b/source/WaveletDecoder/include/WaveletDecoder.h
index 1e3dc3d..315b6a4 100644
--- a/source/WaveletDecoder/include/WaveletDecoder.h
+++ b/source/WaveletDecoder/include/WaveletDecoder.h
@@ -54,6 +54,8 @@ using haptics::types::Effect;
 namespace haptics::waveletdecoder {
 
 constexpr double MS_2_S_WAVELET = 0.001;
+constexpr int MIN_BLOCK_SAMPLES = 16;
+constexpr int MAX_BLOCK_SAMPLES = 1 << 20;
 
 class WaveletDecoder {
 public:
@@ -63,6 +65,9 @@ public:
                           double scalar, int dwtl);
 
 private:
+  // Number of samples in a block of the band, or 0 if such blocks cannot be decoded
+  [[nodiscard]] auto static getBlockSamples(const Band &band, unsigned int timescale) -> int;
+
   std::vector<double> sig_rec;
   Spiht_Dec spihtDec = Spiht_Dec();
 };
diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 993b676..3f5081e 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -35,12 +35,30 @@
 
 namespace haptics::waveletdecoder {
 
+auto WaveletDecoder::getBlockSamples(const Band &band, unsigned int timescale) -> int {
+  if (timescale == 0) {
+    return 0;
+  }
+  const double samples = (double)band.getBlockLengthOrDefault() *
+                         (double)band.getUpperFrequencyLimit() / (double)timescale;
+  if (samples < MIN_BLOCK_SAMPLES || samples > MAX_BLOCK_SAMPLES) {
+    return 0;
+  }
+  auto bl = (int)samples;
+  // each level of the transform halves the block
+  auto dwtlevel = (int)log2((double)bl / 4);
+  return bl % (1 << dwtlevel) == 0 ? bl : 0;
+}
+
 auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double> {
   if (band.getBandType() != BandType::WaveletWave || !band.getBlockLength().has_value()) {
     return std::vector<double>();
   }
   size_t numBlocks = band.getEffectsSize();
-  int bl = band.getBlockLength().value() * band.getUpperFrequencyLimit() / timescale;
+  int bl = getBlockSamples(band, timescale);
+  if (bl == 0) {
+    return std::vector<double>();
+  }
   int dwtlevel = (int)log2((double)bl / 4);
   std::vector<double> sig_rec;
 
@@ -70,8 +88,10 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)((double)band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
-                  (double)timescale);
+  int bl = getBlockSamples(band, timescale);
+  if (bl == 0) {
+    return;
+  }
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 549410128f786357fcf8216c188c126f364e5b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 086/107] fix: refuse to stream effects and packets beyond the
 range of their timestamps

---
 source/IOHaptics/src/IOStream.cpp | 53 ++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2652d1e..89ec056 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -50,12 +50,56 @@ template <class T> static auto toEnum(const std::map<T, std::string> &names, int
   return static_cast<T>(value);
 }
 
+// whether the packets of the effect end at a time that can be represented
+static auto isInTimeRange(types::Effect &effect, int packetDuration) -> bool {
+  constexpr int64_t minTime = std::numeric_limits<int>::min();
+  const int64_t maxTime = static_cast<int64_t>(std::numeric_limits<int>::max()) - packetDuration;
+  const int64_t position = effect.getPosition();
+  if (position > maxTime) {
+    return false;
+  }
+  for (int i = 0; i < static_cast<int>(effect.getKeyframesSize()); i++) {
+    const int64_t time = position + effect.getKeyframeAt(i).getRelativePosition().value_or(0);
+    if (time < minTime || time > maxTime) {
+      return false;
+    }
+  }
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    if (!isInTimeRange(effect.getTimelineEffectAt(i), packetDuration)) {
+      return false;
+    }
+  }
+  return true;
+}
+
+static auto isInTimeRange(types::Haptics &haptic, int packetDuration) -> bool {
+  for (int i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+    auto &perception = haptic.getPerceptionAt(i);
+    for (int j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+      auto &channel = perception.getChannelAt(j);
+      for (int k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+        auto &band = channel.getBandAt(k);
+        for (int l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+          if (!isInTimeRange(band.getEffectAt(l), packetDuration)) {
+            return false;
+          }
+        }
+      }
+    }
+  }
+  return true;
+}
+
 auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, int packetDuration)
     -> bool {
-  if (packetDuration <= 0) {
+  if (packetDuration <= 0 || packetDuration >= (1 << UNIT_DURATION)) {
     std::cerr << packetDuration << ": Invalid packet duration!" << std::endl;
     return false;
   }
+  if (!isInTimeRange(haptic, packetDuration)) {
+    std::cerr << filePath << ": An effect is too late for a stream!" << std::endl;
+    return false;
+  }
   std::ofstream file(filePath, std::ios::out | std::ios::binary);
   if (!file) {
     std::cerr << filePath << ": Cannot open file!" << std::endl;
@@ -2466,7 +2510,7 @@ auto IOStream::writeEffectBasis(types::Effect effect, StreamWriter &swriter, int
   int tsFX = effect.getPosition();
   for (auto j = 0; j < static_cast<int>(effect.getKeyframesSize()); j++) {
     types::Keyframe kf = effect.getKeyframeAt(j);
-    int currentTime = kf.getRelativePosition().value() + tsFX;
+    int currentTime = kf.getRelativePosition().value_or(0) + tsFX;
     if (currentTime < swriter.time + static_cast<int>(swriter.packetDuration) &&
         currentTime >= swriter.time) {
       if (firstKf) {
@@ -2597,7 +2641,7 @@ auto IOStream::writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bits
     bufbitstream.insert(bufbitstream.end(), bufBits.begin(), bufBits.end());
     informationMask |= 0b01;
   }
-  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value());
+  std::bitset<KEYFRAME_POSITION> posBits(keyframe.getRelativePosition().value_or(0));
   std::string posStr = posBits.to_string();
   IOBinaryPrimitives::writeStrBits(posStr, bufbitstream);
 
@@ -2800,7 +2844,8 @@ auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effec
 auto IOStream::getNextEffectId(std::vector<int> &effectsId) -> int {
   int nextId = 0;
   if (!effectsId.empty()) {
-    nextId = *max_element(effectsId.begin(), effectsId.end()) + 1;
+    nextId = *max_element(effectsId.begin(), effectsId.end());
+    nextId = nextId < (1 << EFFECT_ID) ? nextId + 1 : nextId;
   }
   if (nextId >= (1 << EFFECT_ID)) {
     // the highest identifier is taken: use the lowest free one that fits the field
-- 
2.43.0


From b63a40f1744444b3cc26717cef8a201b44cd42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 087/107] fix: keep long Bezier curves from overflowing

---
 source/Tools/src/Tools.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index ed40c87..9faf241 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -304,7 +304,9 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
 
     for (int j = 1; j < dx2; j++) {
       if (1 - 2 * dx1 + dx2 != 0) {
-        t = (1 - dx1 + std::sqrt(std::pow(dx1, 2) - 2 * j * dx1 + j * 1 + j * dx2 - 1 * dx2)) /
+        const double offset = j; // the products below exceed an int
+        t = (1 - dx1 + std::sqrt(std::pow(dx1, 2) - 2 * offset * dx1 + offset * 1 + offset * dx2 -
+                                 1 * dx2)) /
             (1 - 2 * dx1 + dx2);
       } else {
         t = (1 - j) / static_cast<double>(2 * (1 - dx1));
-- 
2.43.0


From 2a8c457b108296051336c9014d4d9d55fd5c0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 088/107] fix: evaluate wavelet samples far from the effect
 without an overflow

---
 source/Types/src/Effect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 51cf015..e77367f 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -307,13 +307,13 @@ auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) ->
   double relativePosition = (position - this->getPosition()) * (double)fs /
                             (double)timescale; // relative position in samples rel. to fs
   // a position on a sample may be slightly before it once rounded
-  int index = std::floor(relativePosition + SAMPLE_POSITION_TOLERANCE);
+  const double index = std::floor(relativePosition + SAMPLE_POSITION_TOLERANCE);
 
   auto samples = this->getWaveletSamples();
-  if (index < 0 || index >= (int)samples.size()) {
+  if (index < 0 || index >= (double)samples.size()) {
     return 0;
   }
-  return samples[index];
+  return samples[(size_t)index];
 }
 
 auto Effect::EvaluateTransient(double position, double transientDuration) -> double {
-- 
2.43.0


From d1c39f13cdb23003606478e97ebbcb9faf0c66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 089/107] fix: refuse unknown enumeration values in binary
 files

---
 source/IOHaptics/include/IOBinaryPrimitives.h |  8 ++++++++
 source/IOHaptics/src/IOBinary.cpp             | 16 ++++++++++------
 source/IOHaptics/src/IOBinaryBands.cpp        | 12 +++++++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index bdc6271..ea0447f 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <map>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -54,6 +55,13 @@ constexpr int VECTOR_AXIS_SIZE = 8;
 constexpr int BYTE_SIZE = 8;
 class IOBinaryPrimitives {
 public:
+  // the enumerator of a coded value, which must be one of those that have a name
+  template <class T> static auto toEnum(const std::map<T, std::string> &names, int value) -> T {
+    if (names.find(static_cast<T>(value)) == names.end()) {
+      throw std::out_of_range("unknown enumeration value");
+    }
+    return static_cast<T>(value);
+  }
   static auto readVector(std::istream &file, std::vector<bool> &unusedBits)
       -> haptics::types::Vector;
   static auto writeVector(const haptics::types::Vector &vector, std::vector<bool> &output) -> void;
diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index e62123d..4258f8b 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -153,7 +153,8 @@ auto IOBinary::readAvatars(types::Haptics &haptic, std::istream &file,
     auto avatarType = IOBinaryPrimitives::readNBits<uint8_t, AVATAR_TYPE>(file, unusedBits);
 
     std::string avatarURI;
-    myAvatar = types::Avatar(avatarId, avatarLod, static_cast<types::AvatarType>(avatarType));
+    myAvatar = types::Avatar(
+        avatarId, avatarLod, IOBinaryPrimitives::toEnum(types::avatarTypeToString, avatarType));
     if (myAvatar.getType() == types::AvatarType::Custom) {
       avatarURI = IOBinaryPrimitives::readString(file, unusedBits);
       myAvatar.setMesh(avatarURI);
@@ -205,7 +206,8 @@ auto IOBinary::readPerceptionsHeader(types::Haptics &haptic, std::istream &file,
         IOBinaryPrimitives::readNBits<int8_t, MDPERCE_PERCE_UNIT_EXP>(file, unusedBits);
 
     myPerception = types::Perception(perceptionId, avatarId, perceptionDescription,
-                                     static_cast<types::PerceptionModality>(perceptionModality));
+                                     IOBinaryPrimitives::toEnum(types::perceptionModalityToString,
+                                                                perceptionModality));
     myPerception.setUnitExponent(unitExponent);
     myPerception.setPerceptionUnitExponent(perceptionUnitExponent);
     if (!IOBinary::readLibrary(myPerception, file, unusedBits)) {
@@ -279,12 +281,13 @@ auto IOBinary::readLibraryEffect(std::istream &file, std::vector<bool> &unusedBi
     auto baseSignal = IOBinaryPrimitives::readNBits<uint8_t, EFFECT_BASE_SIGNAL>(file, unusedBits);
 
     effect =
-        types::Effect(static_cast<int>(position), phase, static_cast<types::BaseSignal>(baseSignal),
+        types::Effect(static_cast<int>(position), phase,
+                      IOBinaryPrimitives::toEnum(types::baseSignalToString, baseSignal),
                       static_cast<types::EffectType>(effectType));
   } else {
 
     effect.setPosition(static_cast<int>(position));
-    effect.setEffectType(static_cast<types::EffectType>(effectType));
+    effect.setEffectType(IOBinaryPrimitives::toEnum(types::effectTypeToString, effectType));
   }
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint32_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
@@ -488,7 +491,7 @@ auto IOBinary::readReferenceDevices(types::Perception &perception, std::istream
 
     if ((deviceInformationMask & (uint16_t)DeviceInformationMask::TYPE) != 0) {
       auto type = IOBinaryPrimitives::readNBits<uint8_t, REFDEV_TYPE>(file, unusedBits);
-      myReferenceDevice.setType(static_cast<types::ActuatorType>(type));
+      myReferenceDevice.setType(IOBinaryPrimitives::toEnum(types::actuatorTypeToString, type));
     }
 
     perception.addReferenceDevice(myReferenceDevice);
@@ -624,7 +627,8 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
       std::vector<types::BodyPartTarget> bodyPartTarget(bodyPartTargetCount,
                                                         types::BodyPartTarget::Unknown);
       for (auto &target : bodyPartTarget) {
-        target = static_cast<types::BodyPartTarget>(
+        target = IOBinaryPrimitives::toEnum(
+            types::bodyPartTargetToString,
             IOBinaryPrimitives::readNBits<uint8_t, MDCHANNEL_BODY_PART_TARGET>(file, unusedBits));
       }
       t.setBodyPartTarget(bodyPartTarget);
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index b01bb41..6e59194 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -43,11 +43,11 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
                                    std::vector<bool> &unusedBits, const unsigned int timescale)
     -> bool {
   auto bandType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BAND_TYPE>(file, unusedBits);
-  band.setBandType(static_cast<types::BandType>(bandType));
+  band.setBandType(IOBinaryPrimitives::toEnum(types::bandTypeToString, bandType));
   double blockLength_samp = 0;
   if (band.getBandType() == types::BandType::Curve) {
     auto curveType = IOBinaryPrimitives::readNBits<uint8_t, MDBAND_CURVE_TYPE>(file, unusedBits);
-    band.setCurveType(static_cast<types::CurveType>(curveType));
+    band.setCurveType(IOBinaryPrimitives::toEnum(types::curveTypeToString, curveType));
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
@@ -116,7 +116,8 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     -> bool {
   for (int effectIndex = 0; effectIndex < static_cast<int>(band.getEffectsSize()); effectIndex++) {
     auto myEffect = band.getEffectAt(effectIndex);
-    auto effectType = static_cast<types::EffectType>(
+    auto effectType = IOBinaryPrimitives::toEnum(
+        types::effectTypeToString,
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
     myEffect.setEffectType(effectType);
     int position = 0;
@@ -306,7 +307,7 @@ auto IOBinaryBands::readVectorialEffect(types::Effect &effect, std::istream &fil
       IOBinaryPrimitives::readFloatNBits<uint16_t, EFFECT_PHASE>(file, 0, MAX_PHASE, unusedBits);
   effect.setPhase(phase);
   auto baseSignal = IOBinaryPrimitives::readNBits<uint8_t, EFFECT_BASE_SIGNAL>(file, unusedBits);
-  effect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
+  effect.setBaseSignal(IOBinaryPrimitives::toEnum(types::baseSignalToString, baseSignal));
   auto keyframeCount =
       IOBinaryPrimitives::readNBits<uint16_t, EFFECT_KEYFRAME_COUNT>(file, unusedBits);
   for (unsigned short keyframeIndex = 0; keyframeIndex < keyframeCount; keyframeIndex++) {
@@ -431,7 +432,8 @@ auto IOBinaryBands::readTimelineEffect(types::Effect &effect, types::Band &band,
 
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     types::Effect myEffect;
-    auto effectType = static_cast<types::EffectType>(
+    auto effectType = IOBinaryPrimitives::toEnum(
+        types::effectTypeToString,
         IOBinaryPrimitives::readNBits<uint8_t, EFFECT_TYPE>(file, unusedBits));
     myEffect.setEffectType(effectType);
     auto position = static_cast<int>(
-- 
2.43.0


From 25eef513d3e998e99a53f4c5e3b7e1a4a8a1e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 090/107] fix: check long URIs and dates without exhausting the
 stack

---
 source/IOHaptics/include/IOJson.h | 1 +
 source/IOHaptics/src/IOJson.cpp   | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/include/IOJson.h b/source/IOHaptics/include/IOJson.h
index e7cfcb1..d8ae8ca 100644
--- a/source/IOHaptics/include/IOJson.h
+++ b/source/IOHaptics/include/IOJson.h
@@ -99,6 +99,7 @@ public:
   static constexpr int MAX_BANDS_LEVEL1 = 7;
   static constexpr int MAX_BANDS_LEVEL2 = 63;
   static constexpr int VECTOR_RANGE = 127;
+  static constexpr size_t MAX_DATE_LENGTH = 256;
   static constexpr float MIN_UNIT_VECTOR_NORM = 0.99F;
   static constexpr float MAX_UNIT_VECTOR_NORM = 1.01F;
   static constexpr int MIN_VERSION_YEAR = 2023;
diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index c610d80..149d265 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -82,9 +82,9 @@ auto MyRemoteSchemaDocumentProvider::GetRemoteDocument(const char *uri, rapidjso
 }
 
 auto IOJson::URICheck(const std::string &uri, bool log) -> bool {
-  const std::regex txt_regex(R"(^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?)");
-  std::smatch pieces_match;
-  if (!regex_search(uri, pieces_match, txt_regex) || pieces_match[0] == "") {
+  // the parts of (([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))? are all optional: any text
+  // has them. It may be too long for std::regex, which needs stack space for each character.
+  if (uri.empty()) {
     if (log) {
       std::cerr << "Invalid URI, the URI format shall conform to RFC3986." << std::endl;
     }
@@ -97,7 +97,7 @@ auto IOJson::dateCheck(const std::string &date, bool log) -> bool {
   const std::regex txt_regex("[+-]?[0-9]{4}(-[01][0-9](-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:?([0-5]["
                              "0-9](.[0-9]+)?)?[+-][0-2][0-9]:[0-5][0-9]Z?)?)?)?");
   std::smatch pieces_match;
-  if (!regex_search(date, pieces_match, txt_regex)) {
+  if (date.size() > MAX_DATE_LENGTH || !regex_search(date, pieces_match, txt_regex)) {
     if (log) {
       std::cerr << "Invalid date, the date format shall conform to ISO 8601 series." << std::endl;
     }
-- 
2.43.0


From 5f269af87731b619ab4d4df415df71eb1c62e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 091/107] fix: export OHM metadata of experiences with any
 version text

---
 source/Types/src/Haptics.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c3d78cc..f325186 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -32,7 +32,10 @@
  */
 
 #include <Types/include/Haptics.h>
+#include <algorithm>
+#include <cstdlib>
 #include <ctime>
+#include <limits>
 
 namespace haptics::types {
 
@@ -155,7 +158,10 @@ auto Haptics::loadMetadataFromOHM(haptics::tools::OHMData data) -> void {
 
 auto Haptics::extractMetadataToOHM(std::string &filename) -> haptics::tools::OHMData {
   std::string header = std::string("OHM ");
-  auto v = static_cast<short>(version.empty() ? 0 : std::stoi(version));
+  // the year of the version, or 0 without one
+  const long year = std::strtol(version.c_str(), nullptr, 10);
+  auto v = static_cast<short>(
+      std::clamp<long>(year, std::numeric_limits<short>::min(), std::numeric_limits<short>::max()));
   std::string desc = description;
   haptics::tools::OHMData res(header, v, desc);
   tools::OHMData::HapticElementMetadata element;
-- 
2.43.0


From dc4b67a3bb13d393398f0330d1f6543634ca787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 092/107] fix: refuse a timescale of zero

---
 source/IOHaptics/src/IOJson.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 149d265..c844081 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -184,7 +184,10 @@ auto IOJson::semanticConformanceCheckExperience(types::Haptics &haptic) -> bool
   conformant &= dateCheck(date, true);
   if (haptic.getTimescale().has_value()) {
     auto timescale = haptic.getTimescale().value();
-    if (profile == "Simple Parametric" && timescale != MAX_TIMESCALE_PARAMETRIC) {
+    if (timescale == 0) {
+      std::cerr << "Invalid timescale. The value must be greater than 0." << std::endl;
+      conformant = false;
+    } else if (profile == "Simple Parametric" && timescale != MAX_TIMESCALE_PARAMETRIC) {
       std::cerr << "Invalid timescale. The simple parametric profile only supports a value of 1000."
                 << std::endl;
       conformant = false;
-- 
2.43.0


From d946e72074b287b8ca040cf41781e214400a88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 093/107] fix: report effects with a semantic keyword that
 streams cannot hold

---
 source/IOHaptics/src/IOStream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 89ec056..70c6603 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -107,7 +107,12 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   std::vector<std::vector<bool>> packetsBytes = std::vector<std::vector<bool>>();
-  bool success = writeUnits(haptic, packetsBytes, packetDuration);
+  bool success = false;
+  try {
+    success = writeUnits(haptic, packetsBytes, packetDuration);
+  } catch (const std::out_of_range &e) { // such as a semantic keyword that has no code
+    std::cerr << filePath << ": Cannot be written as a stream: " << e.what() << std::endl;
+  }
   std::vector<bool> binary = std::vector<bool>();
   if (success) {
     for (auto &packet : packetsBytes) {
-- 
2.43.0


From 87e6443e32c3983a713e470c9b89a421a859c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 094/107] fix: measure channels with a sampling frequency of
 zero by their bands

---
 source/Synthesizer/src/Helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 5e872b5..9e104b8 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -55,7 +55,7 @@ namespace haptics::synthesizer {
     perception = haptic.getPerceptionAt((int)perceptionIndex);
     for (uint32_t channelIndex = 0; channelIndex < perception.getChannelsSize(); channelIndex++) {
       channel = perception.getChannelAt((int)channelIndex);
-      if (channel.getFrequencySampling().has_value() && channel.getSampleCount().has_value()) {
+      if (channel.getFrequencySampling().value_or(0) != 0 && channel.getSampleCount().has_value()) {
         currentLength = static_cast<double>(timescale) *
                         (static_cast<double>(channel.getSampleCount().value()) /
                          channel.getFrequencySampling().value());
-- 
2.43.0


From 974b920a0d20b92e664d54c63f079eca8d0b94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 095/107] fix: keep distant keyframes and negative block
 lengths from overflowing

---
 source/Tools/src/Tools.cpp  | 2 +-
 source/Types/src/Effect.cpp | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 9faf241..8e1369f 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -440,6 +440,6 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return !s.empty() && it == s.end();
 }
 
-[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n != 0) && ((n & (n - 1)) == 0); }
+[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n > 0) && ((n & (n - 1)) == 0); }
 
 } // namespace haptics::tools
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index e77367f..68acec0 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -246,10 +246,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         break;
       }
       if (firstFrequencyKeyframeBeforePositionIt < keyframes.rend()) {
-        int deltaT =
-            pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
-                       ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
-                       : 0);
+        const double deltaT =
+            static_cast<double>(pos) -
+            (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
+                 ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
+                 : 0);
         phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
-- 
2.43.0


From 5243350485685980a4fadc3de46614af4a858a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 096/107] fix: stream the sample count of channels with any
 sampling frequency

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 70c6603..81a135e 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1657,7 +1657,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
     }
   }
 
-  int freqSampling = static_cast<int>(swriter.channel.getFrequencySampling().value_or(0));
+  uint32_t freqSampling = swriter.channel.getFrequencySampling().value_or(0);
   std::bitset<MDCHANNEL_FREQ_SAMPLING> maxFreqBits(freqSampling);
   valueStr = maxFreqBits.to_string();
   IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-- 
2.43.0


From f4b506b46a728ba50561e9ee2285839c5f5725f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 097/107] fix: refuse binary wavelet bands beyond the range of
 their fields

---
 source/IOHaptics/src/IOBinaryBands.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 6e59194..6c9064a 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -89,13 +89,18 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_CURVE_TYPE>(curveType, output);
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
-    auto blockLength_samples = static_cast<int>(
-        std::lround((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit()));
+    auto blockLength_samples =
+        std::round((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
     if (blockLength_samples < WAVELET_MIN_BL) {
       std::cerr << "wavelet blocklength too small" << std::endl;
       return false;
     }
     auto blockLength_code = static_cast<int>(std::floor(std::log2(blockLength_samples))) - 4;
+    if (blockLength_code >= 1 << MDBAND_BLK_LEN ||
+        band.getUpperFrequencyLimit() >= 1 << MDBAND_UP_FREQ) {
+      std::cerr << "wavelet blocklength or frequency limit too large" << std::endl;
+      return false;
+    }
     IOBinaryPrimitives::writeNBits<uint8_t, MDBAND_BLK_LEN>(blockLength_code, output);
   }
 
-- 
2.43.0


From 330c5b663b8f2422c1280f251b603449d3a5f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 098/107] fix: evaluate distant frequency keyframes without an
 overflow

---
 source/Tools/src/Tools.cpp  | 2 +-
 source/Types/src/Effect.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 8e1369f..cd817c1 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -75,7 +75,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     return end_frequency;
   }
 
-  return (((end_frequency - start_frequency) / (end_time - start_time)) / 2) *
+  return (((end_frequency - start_frequency) / (static_cast<double>(end_time) - start_time)) / 2) *
              (position - start_time) +
          start_frequency;
 }
diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 68acec0..41864ec 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -252,7 +252,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
                  ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                  : 0);
         phi += M_PI * deltaT / static_cast<double>(timescale) *
-               (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
+               (static_cast<double>(
+                    firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value()) +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
         phi += 2 * M_PI * pos / static_cast<double>(timescale) *
-- 
2.43.0


From f5daa8c41305f6177aa11f2e784242450245b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 099/107] fix: refuse binary wavelet bands whose blocks exceed
 the range of positions

---
 source/IOHaptics/src/IOBinaryBands.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 6c9064a..31f3dab 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -96,7 +96,11 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
       return false;
     }
     auto blockLength_code = static_cast<int>(std::floor(std::log2(blockLength_samples))) - 4;
-    if (blockLength_code >= 1 << MDBAND_BLK_LEN ||
+    // the blocks are placed by their length, read back from the fields
+    auto last_position = std::pow(2, blockLength_code + 4) * timescale /
+                         band.getUpperFrequencyLimit() *
+                         std::max<double>(1, static_cast<double>(band.getEffectsSize()));
+    if (last_position > std::numeric_limits<int>::max() ||
         band.getUpperFrequencyLimit() >= 1 << MDBAND_UP_FREQ) {
       std::cerr << "wavelet blocklength or frequency limit too large" << std::endl;
       return false;
-- 
2.43.0


From fcbf2af6eed5852411554d7a2733377484e97309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 100/107] fix: report invalid values of numerical options
 instead of aborting

---
 source/Encoder/src/main.cpp        | 40 +++++++++++++++++++++++++-----
 source/Synthesizer/src/main.cpp    | 26 +++++++++----------
 source/Tools/include/InputParser.h |  2 ++
 source/Tools/src/InputParser.cpp   | 22 ++++++++++++++++
 4 files changed, 71 insertions(+), 19 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index 257f130..b972bfe 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -133,22 +133,42 @@ auto main(int argc, char *argv[]) -> int {
 
   std::optional<int> bitrate = std::nullopt;
   if (inputParser.cmdOptionExists("-kb")) {
-    bitrate = std::stoi(inputParser.getCmdOption("-kb"));
+    int value = 0;
+    if (!inputParser.getCmdInteger("-kb", value)) {
+      help();
+      return EXIT_FAILURE;
+    }
+    bitrate = value;
   }
 
   std::optional<int> budget = std::nullopt;
   if (inputParser.cmdOptionExists("-bu")) {
-    budget = std::stoi(inputParser.getCmdOption("-bu"));
+    int value = 0;
+    if (!inputParser.getCmdInteger("-bu", value)) {
+      help();
+      return EXIT_FAILURE;
+    }
+    budget = value;
   }
 
   std::optional<int> blocklength = std::nullopt;
   if (inputParser.cmdOptionExists("-bl")) {
-    blocklength = std::stoi(inputParser.getCmdOption("-bl"));
+    int value = 0;
+    if (!inputParser.getCmdInteger("-bl", value)) {
+      help();
+      return EXIT_FAILURE;
+    }
+    blocklength = value;
   }
 
   std::optional<double> cutoff = std::nullopt;
   if (inputParser.cmdOptionExists("-cf")) {
-    cutoff = std::stod(inputParser.getCmdOption("-cf"));
+    double value = 0;
+    if (!inputParser.getCmdReal("-cf", value)) {
+      help();
+      return EXIT_FAILURE;
+    }
+    cutoff = value;
   } else {
     cutoff = haptics::encoder::DEFAULT_CUTOFF_FREQUENCY;
   }
@@ -158,7 +178,12 @@ auto main(int argc, char *argv[]) -> int {
 
   Haptics hapticFile;
   if (inputParser.cmdOptionExists("-ts")) {
-    hapticFile.setTimescale(std::stoi(inputParser.getCmdOption("-ts")));
+    int value = 0;
+    if (!inputParser.getCmdInteger("-ts", value) || value <= 0) {
+      help();
+      return EXIT_FAILURE;
+    }
+    hapticFile.setTimescale(value);
   } else {
     // NOLINTNEXTLINE
     hapticFile.setTimescale(1000);
@@ -295,7 +320,10 @@ auto main(int argc, char *argv[]) -> int {
     //} else if (inputParser.cmdOptionExists("-s") || inputParser.cmdOptionExists("--streaming")) {
     int packetDuration = haptics::io::DEFAULT_PACKET_DURATION;
     if (inputParser.cmdOptionExists("--packet_duration")) {
-      packetDuration = std::stoi(inputParser.getCmdOption("--packet_duration"));
+      if (!inputParser.getCmdInteger("--packet_duration", packetDuration)) {
+        help();
+        return EXIT_FAILURE;
+      }
     }
     if (!IOStream::writeFile(hapticFile, output, packetDuration)) {
       return EXIT_FAILURE;
diff --git a/source/Synthesizer/src/main.cpp b/source/Synthesizer/src/main.cpp
index dad77e8..486d25c 100644
--- a/source/Synthesizer/src/main.cpp
+++ b/source/Synthesizer/src/main.cpp
@@ -102,19 +102,15 @@ auto main(int argc, char *argv[]) -> int {
   }
   std::cout << "The generated file will be : " << output << "\n";
 
-  std::string fsStr = inputParser.getCmdOption("-fs");
-  if (fsStr.empty()) {
-    fsStr = inputParser.getCmdOption("--sampling_frequency");
+  std::string fsOption = "-fs";
+  if (inputParser.getCmdOption(fsOption).empty()) {
+    fsOption = "--sampling_frequency";
   }
-  int fs = 0;
-  if (fsStr.empty()) {
-    fs = DEFAULT_FS;
-  } else {
-    fs = std::stoi(fsStr);
-    if (fs <= 0) {
-      help();
-      return EXIT_FAILURE;
-    }
+  int fs = DEFAULT_FS;
+  if (!inputParser.getCmdOption(fsOption).empty() &&
+      (!inputParser.getCmdInteger(fsOption, fs) || fs <= 0)) {
+    help();
+    return EXIT_FAILURE;
   }
 
   std::cout << "The sampling frequency used will be : " << fs << "\n";
@@ -122,7 +118,11 @@ auto main(int argc, char *argv[]) -> int {
   std::string padStr = inputParser.getCmdOption("--pad");
   int pad = 0;
   if (!padStr.empty()) {
-    pad = std::max(std::stoi(padStr), 0);
+    if (!inputParser.getCmdInteger("--pad", pad)) {
+      help();
+      return EXIT_FAILURE;
+    }
+    pad = std::max(pad, 0);
     std::cout << "The padding used will be : " << pad << "ms\n";
   }
 
diff --git a/source/Tools/include/InputParser.h b/source/Tools/include/InputParser.h
index 87e5453..7839bb0 100644
--- a/source/Tools/include/InputParser.h
+++ b/source/Tools/include/InputParser.h
@@ -44,6 +44,8 @@ class InputParser {
 public:
   InputParser(const std::vector<const char *> &args);
   [[nodiscard]] auto getCmdOption(const std::string &option) const -> const std::string &;
+  [[nodiscard]] auto getCmdInteger(const std::string &option, int &value) const -> bool;
+  [[nodiscard]] auto getCmdReal(const std::string &option, double &value) const -> bool;
   [[nodiscard]] auto cmdOptionExists(const std::string &option) const -> bool;
   auto static getFileExt(std::string &filename) -> std::string;
 
diff --git a/source/Tools/src/InputParser.cpp b/source/Tools/src/InputParser.cpp
index df1c9d8..50e1bda 100644
--- a/source/Tools/src/InputParser.cpp
+++ b/source/Tools/src/InputParser.cpp
@@ -32,6 +32,8 @@
  */
 
 #include <Tools/include/InputParser.h>
+#include <cmath>
+#include <stdexcept>
 
 namespace haptics::tools {
 
@@ -52,6 +54,26 @@ InputParser::InputParser(const std::vector<const char *> &args) {
   return empty_string;
 }
 
+[[nodiscard]] auto InputParser::getCmdInteger(const std::string &option, int &value) const -> bool {
+  try {
+    value = std::stoi(getCmdOption(option));
+    return true;
+  } catch (const std::logic_error &) { // not a number, or out of range
+    std::cerr << "invalid value for the option " << option << std::endl;
+    return false;
+  }
+}
+
+[[nodiscard]] auto InputParser::getCmdReal(const std::string &option, double &value) const -> bool {
+  try {
+    value = std::stod(getCmdOption(option));
+    return std::isfinite(value);
+  } catch (const std::logic_error &) { // not a number, or out of range
+    std::cerr << "invalid value for the option " << option << std::endl;
+    return false;
+  }
+}
+
 [[nodiscard]] auto InputParser::cmdOptionExists(const std::string &option) const -> bool {
   return std::find(this->tokens.begin(), this->tokens.end(), option) != this->tokens.end();
 }
-- 
2.43.0


From 665d51f2c4b8ae8151c3ffddc74d87cf20c71338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 101/107] fix: refuse PCM settings the encoder cannot use

---
 source/Encoder/include/PcmEncoder.h   |  9 ++++++---
 source/Encoder/src/PcmEncoder.cpp     | 18 ++++++++++++++++++
 source/Encoder/src/WaveletEncoder.cpp |  2 +-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/source/Encoder/include/PcmEncoder.h b/source/Encoder/include/PcmEncoder.h
index ce23c2c..0a672cb 100644
--- a/source/Encoder/include/PcmEncoder.h
+++ b/source/Encoder/include/PcmEncoder.h
@@ -54,6 +54,8 @@ static constexpr int BITR_64 = 64;
 static constexpr double DEFAULT_CUTOFF_FREQUENCY = 72.5;
 static constexpr int DEFAULT_BLOCK_LENGTH_SMP = 1024; // in samples
 static constexpr int DEFAULT_BIT_BUDGET = 16;
+static constexpr int MIN_BLOCK_LENGTH_SMP = 16;      // in samples
+static constexpr int MAX_BLOCK_LENGTH_SMP = 1 << 19; // in samples
 static constexpr double PARAM_A = -6.506;
 static constexpr double PARAM_B = 3.433;
 static constexpr double PARAM_C = -0.04421;
@@ -100,14 +102,15 @@ struct EncodingConfig {
 
     auto temp = (double)bitrate;
     auto wavelet_bitbudget =
-        (int)floor(PARAM_D * pow(temp, 3) + PARAM_C * pow(temp, 2) + PARAM_B * temp + PARAM_A);
-    auto max_bitbudget = (int)(log2(wavelet_blockLength) - 1) * spiht::MAXBITS;
+        floor(PARAM_D * pow(temp, 3) + PARAM_C * pow(temp, 2) + PARAM_B * temp + PARAM_A);
+    auto max_bitbudget =
+        wavelet_blockLength > 0 ? (int)(log2(wavelet_blockLength) - 1) * spiht::MAXBITS : 0;
     if (wavelet_bitbudget > max_bitbudget) {
       wavelet_bitbudget = max_bitbudget;
     } else if (wavelet_bitbudget < 1) {
       wavelet_bitbudget = 1;
     }
-    return EncodingConfig(curveFrequencyLimit, wavelet_blockLength, wavelet_bitbudget,
+    return EncodingConfig(curveFrequencyLimit, wavelet_blockLength, (int)wavelet_bitbudget,
                           enable_wavelet, enable_vectorial);
   }
 };
diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index 2b941cd..8e49ca4 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/PcmEncoder.h>
 #include <Tools/include/Tools.h>
 #include <Types/include/CurveType.h>
+#include <limits>
 
 using haptics::encoder::WaveletEncoder;
 using haptics::filterbank::Filterbank;
@@ -57,6 +58,23 @@ auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const uns
     return EXIT_FAILURE;
   }
   size_t numChannels = wavParser.getNumChannels();
+  // the blocks of the wavelet encoder are powers of two, the filters split below half the sampling
+  // rate and the positions in ticks are integers
+  const auto samplerate = static_cast<double>(wavParser.getSamplerate());
+  const int blockLength = config.wavelet_blockLength;
+  if (blockLength < MIN_BLOCK_LENGTH_SMP || blockLength > MAX_BLOCK_LENGTH_SMP ||
+      (blockLength & (blockLength - 1)) != 0 || !(config.curveFrequencyLimit >= 0) ||
+      2 * config.curveFrequencyLimit >= samplerate) {
+    std::cerr << "The block length or the cutoff frequency cannot be used" << std::endl;
+    return EXIT_FAILURE;
+  }
+  const double lastPosition =
+      (static_cast<double>(wavParser.getNumSamples() / numChannels) + blockLength) * timescale / samplerate;
+  if (lastPosition > std::numeric_limits<int>::max() ||
+      (config.wavelet_enabled && blockLength * static_cast<double>(timescale) < samplerate)) {
+    std::cerr << "The timescale cannot be used" << std::endl;
+    return EXIT_FAILURE;
+  }
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
   if (channelsSize < numChannels) {
diff --git a/source/Encoder/src/WaveletEncoder.cpp b/source/Encoder/src/WaveletEncoder.cpp
index b76434b..302042c 100644
--- a/source/Encoder/src/WaveletEncoder.cpp
+++ b/source/Encoder/src/WaveletEncoder.cpp
@@ -58,7 +58,7 @@ auto WaveletEncoder::encodeSignal(std::vector<double> &sig_time, int bitbudget,
   band.setBandType(BandType::WaveletWave);
   band.setLowerFrequencyLimit((int)f_cutoff);
   band.setUpperFrequencyLimit((int)fs);
-  band.setBlockLength(bl * static_cast<int>(timescale) / fs);
+  band.setBlockLength(static_cast<int>(static_cast<int64_t>(bl) * timescale / fs));
   int pos_effect = 0;
   long add_start = 0;
   unsigned int add_end = bl;
-- 
2.43.0


From 22393d1708d398690a1cea0ae0a95deedc56e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 102/107] fix: tell apart the bands of different channels when
 there are more than 256

---
 source/IOHaptics/include/IOStream.h | 2 ++
 source/IOHaptics/src/IOStream.cpp   | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 43aa396..5dfb64b 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -75,6 +75,8 @@ class IOStream {
 public:
   struct BandStream {
     int id = -1;
+    int perceptionId = -1;
+    int channelId = -1;
     types::Band band = types::Band();
     int index = -1;
   };
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 81a135e..cdce14d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -831,6 +831,8 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
                                                       .getChannelAt(channelIndex)
                                                       .getBandsSize()) -
                                  1;
+      sreader.bandStream.perceptionId = sreader.perception.getId();
+      sreader.bandStream.channelId = sreader.channel.getId();
       sreader.bandStreamsHaptic.push_back(sreader.bandStream);
     } else {
       sreader.haptic.getPerceptionAt(perceIndex)
@@ -2701,7 +2703,9 @@ auto IOStream::searchChannelInPerception(types::Perception &perception, int id)
 
 auto IOStream::searchBandInHaptic(StreamReader &sreader, int id) -> int {
   for (auto &bandBuf : sreader.bandStreamsHaptic) {
-    if (bandBuf.id == id) {
+    // the numbers of the bands only differ within a channel
+    if (bandBuf.id == id && bandBuf.perceptionId == sreader.perception.getId() &&
+        bandBuf.channelId == sreader.channel.getId()) {
       return bandBuf.index;
     }
   }
-- 
2.43.0


From 31412f52f83906bef135eaccd8450d96bec8a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 103/107] fix: give no band of a near silent wavelet block more
 bits than it can hold

---
 source/Encoder/src/WaveletEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Encoder/src/WaveletEncoder.cpp b/source/Encoder/src/WaveletEncoder.cpp
index 302042c..5349a78 100644
--- a/source/Encoder/src/WaveletEncoder.cpp
+++ b/source/Encoder/src/WaveletEncoder.cpp
@@ -32,6 +32,7 @@
  */
 
 #include "../include/WaveletEncoder.h"
+#include <limits>
 
 namespace haptics::encoder {
 
@@ -131,6 +132,9 @@ void WaveletEncoder::encodeBlock(std::vector<double> &block_time, int bitbudget,
     for (uint32_t i = 0; i < book.size(); i++) {
       if (bitalloc[i] >= spiht::MAXBITS) {
         MNR[i] = INFINITY;
+      } else if (!(MNR[i] < INFINITY)) {
+        // without noise, or too faint to tell: after all others, but before a band that is full
+        MNR[i] = std::numeric_limits<double>::max();
       }
     }
     size_t index = findMinInd(MNR);
-- 
2.43.0


From 54dd898d7f132ce92b9a18b4bb935ef885c81d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 104/107] fix: apply the block length and cutoff options to WAV
 files encoded without a bitrate or budget

---
 source/Encoder/src/main.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/Encoder/src/main.cpp b/source/Encoder/src/main.cpp
index b972bfe..23651af 100644
--- a/source/Encoder/src/main.cpp
+++ b/source/Encoder/src/main.cpp
@@ -249,8 +249,9 @@ auto main(int argc, char *argv[]) -> int {
           }
 
         } else {
-          config = haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet,
-                                                                           enable_vectorial);
+          config = haptics::encoder::EncodingConfig::generateConfigBudget(
+              haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet, enable_vectorial,
+              blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
         }
         codeExit =
             PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
@@ -291,8 +292,9 @@ auto main(int argc, char *argv[]) -> int {
             budget.value(), cutoff.value(), enable_wavelet, enable_vectorial);
       }
     } else {
-      config =
-          haptics::encoder::EncodingConfig::generateDefaultConfig(enable_wavelet, enable_vectorial);
+      config = haptics::encoder::EncodingConfig::generateConfigBudget(
+          haptics::encoder::DEFAULT_BIT_BUDGET, cutoff.value(), enable_wavelet, enable_vectorial,
+          blocklength.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP));
     }
     codeExit =
         PcmEncoder::encode(filename, config, hapticFile.getTimescaleOrDefault(), myPerception);
-- 
2.43.0


From 537698a91d26786e24b56d5f7f7f95cd1acd6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 105/107] fix: accept a checksum whose value is zero

---
 source/IOHaptics/include/IOStream.h | 1 +
 source/IOHaptics/src/IOStream.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 5dfb64b..d01bf1b 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -85,6 +85,7 @@ public:
     uint16_t polynomial16 = CRC16_POLYNOMIAL;
     uint32_t polynomial32 = CRC32_POLYNOMIAL;
     uint8_t nbPackets = 0;
+    int nbBits = 0; // of the value that was read
     uint16_t value16 = 0;
     uint32_t value32 = 0;
   };
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index cdce14d..4bd0d83 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2367,24 +2367,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
   int idx = 0;
   if (mihsPacketType == MIHSPacketType::CRC16) {
     crc.nbPackets = 1;
+    crc.nbBits = CRC16_NB_BITS;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
+    crc.nbBits = CRC32_NB_BITS;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
+    crc.nbBits = CRC16_NB_BITS;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
+    crc.nbBits = CRC32_NB_BITS;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     return true;
@@ -2405,7 +2409,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
                             bitstream[index].end());
   }
   bool res = false;
-  if (crc.value16 > 0) {
+  if (crc.nbBits == CRC16_NB_BITS) { // whose value may be 0
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2420,7 +2424,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else if (crc.nbBits == CRC32_NB_BITS) {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From 3a578c73ff00f49a3f858a8a40ad03f6b86727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 106/107] fix: read the time of a timing packet in ticks

---
 source/IOHaptics/src/IOStream.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 4bd0d83..ac84429 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -774,9 +774,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
-    readTiming(sreader, payload);
-    sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
-    return true;
+    return readTiming(sreader, payload);
   }
   case (MIHSPacketType::MetadataHaptics): {
     return readMetadataHaptics(sreader.haptic, payload);
@@ -902,7 +900,7 @@ auto IOStream::readTiming(StreamReader &sreader, std::vector<bool> &bitstream) -
   int index = 0;
   int timestamp = IOBinaryPrimitives::readUInt(bitstream, index, TIMING_TIME);
 
-  auto sync = types::Sync(timestamp);
+  auto sync = types::Sync(timestamp, sreader.timescale);
   sreader.time = timestamp;
   sreader.haptic.addSync(sync);
 
-- 
2.43.0


From 64025194e8e77db2398c54ce51b055db70b5741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 107/107] fix: take no rising step of a spectrum for a peak

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 465be71..8941469 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -170,7 +170,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             }
             ++i_plateau;
           }
-          if (i_plateau >= (x.size() - 1)) {
+          if (i_plateau >= x.size()) {
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
@@ -179,7 +179,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             p.locations.push_back(i_peak);
             ++num_peaks;
             i = i_plateau;
-          } else if (x[i_plateau + 1] < x[i]) {
+          } else if (x[i_plateau] < x[i]) { // and not rising further
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
-- 
2.43.0

