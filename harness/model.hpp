// Canonical view of a haptic document (path -> value), tolerant comparison, random documents.
#pragma once
#include "common.hpp"
#include <Types/include/Haptics.h>

namespace vf {
namespace ht = haptics::types;

struct Val {
  bool num = false;
  double d = 0;
  std::string s;
  static Val n(double v) { return {true, v, ""}; }
  static Val t(std::string v) { return {false, 0, std::move(v)}; }
  std::string show() const {
    if (!num) return "\"" + s + "\"";
    char b[64];
    snprintf(b, sizeof b, "%.9g", d);
    return b;
  }
};
using Dump = std::map<std::string, Val>;

inline std::string stripIdx(const std::string &p) {
  std::string o;
  bool in = false;
  for (char c : p) {
    if (c == '[') {
      in = true;
      o += "[]";
    } else if (c == ']') {
      in = false;
    } else if (!in) {
      o += c;
    }
  }
  return o;
}

struct DumpOpt {
  bool effectIds = true;      // ids of basis/composite timeline effects
  bool priorities = true;
};

inline void dumpEffect(Dump &d, const std::string &p, ht::Effect &e) {
  d[p + ".id"] = Val::n(e.getId());
  d[p + ".position"] = Val::n(e.getPosition());
  d[p + ".type"] = Val::n(static_cast<int>(e.getEffectType()));
  if (e.getPhase()) d[p + ".phase"] = Val::n(*e.getPhase());
  if (e.getBaseSignal()) d[p + ".signal"] = Val::n(static_cast<int>(*e.getBaseSignal()));
  if (e.getSemantic()) d[p + ".semantic"] = Val::t(*e.getSemantic());
  d[p + ".#keyframes"] = Val::n(e.getKeyframesSize());
  for (int k = 0; k < (int)e.getKeyframesSize(); k++) {
    auto &kf = e.getKeyframeAt(k);
    std::string q = p + ".kf[" + std::to_string(k) + "]";
    if (kf.getRelativePosition()) d[q + ".pos"] = Val::n(*kf.getRelativePosition());
    if (kf.getAmplitudeModulation()) d[q + ".amp"] = Val::n(*kf.getAmplitudeModulation());
    if (kf.getFrequencyModulation()) d[q + ".freq"] = Val::n(*kf.getFrequencyModulation());
  }
  d[p + ".#timeline"] = Val::n(e.getTimelineSize());
  for (int k = 0; k < (int)e.getTimelineSize(); k++)
    dumpEffect(d, p + ".tl[" + std::to_string(k) + "]", e.getTimelineEffectAt(k));
  auto &bs = e.getWaveletBitstream();
  d[p + ".bitstream"] = Val::t(hex(std::string(bs.begin(), bs.end()), 100000));
}
inline void dumpVec(Dump &d, const std::string &p, const ht::Vector &v) {
  d[p + ".X"] = Val::n(v.X);
  d[p + ".Y"] = Val::n(v.Y);
  d[p + ".Z"] = Val::n(v.Z);
}
inline void dumpBand(Dump &d, const std::string &p, ht::Band &b) {
  d[p + ".type"] = Val::n(static_cast<int>(b.getBandType()));
  if (b.getCurveType()) d[p + ".curve"] = Val::n(static_cast<int>(*b.getCurveType()));
  if (b.getBandType() == ht::BandType::WaveletWave)
    d[p + ".blocklength"] = Val::n(b.getBlockLengthOrDefault());
  d[p + ".low"] = Val::n(b.getLowerFrequencyLimit());
  d[p + ".high"] = Val::n(b.getUpperFrequencyLimit());
  if (b.getPriority()) d[p + ".priority"] = Val::n(*b.getPriority());
  d[p + ".#effects"] = Val::n(b.getEffectsSize());
  for (int i = 0; i < (int)b.getEffectsSize(); i++)
    dumpEffect(d, p + ".e[" + std::to_string(i) + "]", b.getEffectAt(i));
}
inline void dumpChannel(Dump &d, const std::string &p, ht::Channel &c) {
  d[p + ".id"] = Val::n(c.getId());
  d[p + ".description"] = Val::t(c.getDescription());
  d[p + ".gain"] = Val::n(c.getGain());
  d[p + ".mixing"] = Val::n(c.getMixingWeight());
  d[p + ".bodymask"] = Val::n(c.getBodyPartMask());
  if (c.getPriority()) d[p + ".priority"] = Val::n(*c.getPriority());
  if (c.getReferenceDeviceId()) d[p + ".refdev"] = Val::n(*c.getReferenceDeviceId());
  if (c.getFrequencySampling()) d[p + ".fs"] = Val::n(*c.getFrequencySampling());
  if (c.getSampleCount()) d[p + ".samplecount"] = Val::n(*c.getSampleCount());
  if (c.getDirection()) dumpVec(d, p + ".direction", *c.getDirection());
  if (c.getActuatorResolution()) dumpVec(d, p + ".resolution", *c.getActuatorResolution());
  if (c.getBodyPartTarget()) {
    auto t = *c.getBodyPartTarget();
    d[p + ".#bodytarget"] = Val::n(t.size());
    for (size_t i = 0; i < t.size(); i++)
      d[p + ".bodytarget[" + std::to_string(i) + "]"] = Val::n(static_cast<int>(t[i]));
  }
  if (c.getActuatorTarget()) {
    auto t = *c.getActuatorTarget();
    d[p + ".#actuatortarget"] = Val::n(t.size());
    for (size_t i = 0; i < t.size(); i++)
      dumpVec(d, p + ".actuatortarget[" + std::to_string(i) + "]", t[i]);
  }
  d[p + ".#vertices"] = Val::n(c.getVerticesSize());
  for (int i = 0; i < (int)c.getVerticesSize(); i++)
    d[p + ".vertex[" + std::to_string(i) + "]"] = Val::n(c.getVertexAt(i));
  d[p + ".#bands"] = Val::n(c.getBandsSize());
  for (int i = 0; i < (int)c.getBandsSize(); i++)
    dumpBand(d, p + ".b[" + std::to_string(i) + "]", c.getBandAt(i));
}
inline void dumpRefDev(Dump &d, const std::string &p, ht::ReferenceDevice &r) {
  d[p + ".id"] = Val::n(r.getId());
  d[p + ".name"] = Val::t(r.getName());
  if (r.getBodyPartMask()) d[p + ".bodymask"] = Val::n(*r.getBodyPartMask());
#define F(nm, g)                                                                                   \
  if (r.g()) d[p + "." nm] = Val::n(*r.g());
  F("maxfreq", getMaximumFrequency) F("minfreq", getMinimumFrequency)
  F("resfreq", getResonanceFrequency) F("maxamp", getMaximumAmplitude)
  F("impedance", getImpedance) F("maxvolt", getMaximumVoltage)
  F("maxcurrent", getMaximumCurrent) F("maxdisp", getMaximumDisplacement)
  F("weight", getWeight) F("size", getSize) F("custom", getCustom)
#undef F
  if (r.getType()) d[p + ".type"] = Val::n(static_cast<int>(*r.getType()));
}
inline void dumpPerception(Dump &d, const std::string &p, ht::Perception &q) {
  d[p + ".id"] = Val::n(q.getId());
  d[p + ".avatar"] = Val::n(q.getAvatarId());
  d[p + ".description"] = Val::t(q.getDescription());
  d[p + ".modality"] = Val::n(static_cast<int>(q.getPerceptionModality()));
  if (q.getPriority()) d[p + ".priority"] = Val::n(*q.getPriority());
  if (q.getEffectSemanticScheme()) d[p + ".scheme"] = Val::t(*q.getEffectSemanticScheme());
  if (q.getUnitExponent()) d[p + ".unitexp"] = Val::n(*q.getUnitExponent());
  if (q.getPerceptionUnitExponent()) d[p + ".punitexp"] = Val::n(*q.getPerceptionUnitExponent());
  d[p + ".#refdevs"] = Val::n(q.getReferenceDevicesSize());
  for (int i = 0; i < (int)q.getReferenceDevicesSize(); i++)
    dumpRefDev(d, p + ".rd[" + std::to_string(i) + "]", q.getReferenceDeviceAt(i));
  d[p + ".#library"] = Val::n(q.getEffectLibrarySize());
  for (int i = 0; i < (int)q.getEffectLibrarySize(); i++)
    dumpEffect(d, p + ".lib[" + std::to_string(i) + "]", q.getBasisEffectAt(i));
  d[p + ".#channels"] = Val::n(q.getChannelsSize());
  for (int i = 0; i < (int)q.getChannelsSize(); i++)
    dumpChannel(d, p + ".c[" + std::to_string(i) + "]", q.getChannelAt(i));
}
inline Dump dumpHaptics(ht::Haptics &h) {
  Dump d;
  d["version"] = Val::t(h.getVersion());
  d["profile"] = Val::t(h.getProfile());
  d["level"] = Val::n(h.getLevel());
  d["date"] = Val::t(h.getDate());
  d["description"] = Val::t(h.getDescription());
  if (h.getTimescale()) d["timescale"] = Val::n(*h.getTimescale());
  d["#avatars"] = Val::n(h.getAvatarsSize());
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(i);
    std::string p = "a[" + std::to_string(i) + "]";
    d[p + ".id"] = Val::n(a.getId());
    d[p + ".lod"] = Val::n(a.getLod());
    d[p + ".type"] = Val::n(static_cast<int>(a.getType()));
    if (a.getMesh()) d[p + ".mesh"] = Val::t(*a.getMesh());
  }
  d["#syncs"] = Val::n(h.getSyncsSize());
  for (int i = 0; i < (int)h.getSyncsSize(); i++) {
    auto &s = h.getSyncsAt(i);
    std::string p = "s[" + std::to_string(i) + "]";
    d[p + ".timestamp"] = Val::n(s.getTimestamp());
    if (s.getTimescale()) d[p + ".timescale"] = Val::n(*s.getTimescale());
  }
  d["#perceptions"] = Val::n(h.getPerceptionsSize());
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    dumpPerception(d, "p[" + std::to_string(i) + "]", h.getPerceptionAt(i));
  return d;
}
inline std::string showDump(const Dump &d, size_t max = 4000) {
  std::string o;
  for (auto &kv : d) {
    o += kv.first + "=" + kv.second.show() + " ";
    if (o.size() > max) break;
  }
  return o;
}
inline uint64_t hashDump(const Dump &d) {
  uint64_t h = 7;
  for (auto &kv : d) {
    h = hashBytes(kv.first.data(), kv.first.size(), h);
    auto s = kv.second.show();
    h = hashBytes(s.data(), s.size(), h);
  }
  return h;
}

// Reports each difference once per stripped path. tol(path-without-indices) -> absolute tolerance,
// negative = ignore this path.
using Tol = std::function<double(const std::string &)>;
inline int compareDumps(const Dump &want, const Dump &got, const Tol &tol, const std::string &tag,
                        const std::string &context = "") {
  std::map<std::string, std::string> out;
  auto add = [&](const std::string &kind, const std::string &path, const std::string &det) {
    out.emplace(tag + ":" + kind + ":" + stripIdx(path), path + " " + det);
  };
  // when counts differ, element paths below are noise: collect prefixes to skip
  std::vector<std::string> skip;
  auto skipped = [&](const std::string &p) {
    for (auto &s : skip)
      if (p.compare(0, s.size(), s) == 0) return true;
    return false;
  };
  static const std::map<std::string, std::string> child = {
      {"#keyframes", "kf["}, {"#timeline", "tl["}, {"#effects", "e["},   {"#bodytarget", "bodytarget["},
      {"#vertices", "vertex["}, {"#bands", "b["},  {"#library", "lib["}, {"#actuatortarget", "actuatortarget["},
      {"#refdevs", "rd["},   {"#channels", "c["},  {"#avatars", "a["},   {"#syncs", "s["},
      {"#perceptions", "p["}};
  for (auto &kv : want) {
    auto h = kv.first.rfind('#');
    if (h == std::string::npos) continue;
    auto it = got.find(kv.first);
    if (it == got.end() || it->second.d == kv.second.d) continue;
    auto c = child.find(kv.first.substr(h));
    if (c != child.end()) skip.push_back(kv.first.substr(0, h) + c->second);
  }
  for (auto &kv : want) {
    if (skipped(kv.first)) continue;
    double t = tol(stripIdx(kv.first));
    if (t < 0) continue;
    auto it = got.find(kv.first);
    if (it == got.end()) {
      add("missing", kv.first, "expected " + kv.second.show() + " got nothing");
      continue;
    }
    bool same = kv.second.num == it->second.num &&
                (kv.second.num ? std::abs(kv.second.d - it->second.d) <= t
                               : kv.second.s == it->second.s);
    if (!same) add("diff", kv.first, "expected " + kv.second.show() + " got " + it->second.show());
  }
  for (auto &kv : got) {
    if (skipped(kv.first)) continue;
    if (tol(stripIdx(kv.first)) < 0) continue;
    if (!want.count(kv.first)) add("extra", kv.first, "unexpected " + kv.second.show());
  }
  for (auto &o : out) R.violation(o.first, o.second + (context.empty() ? "" : " | " + context));
  return static_cast<int>(out.size());
}
} // namespace vf
