// Documents whose fields fit the HMPG stream, and what decoding such a stream has to return.
#pragma once
#include "gen.hpp"

namespace vf {
struct StreamOpt {
  bool wavelet = false, spatial = true, bodyTargets = true, largeGaps = false, syncs = true;
  bool explicitIds = true;
  bool emptyParts = false;
};
// effects of these modalities are placed in space: a stream carries them all at once
inline bool spatialModality(ht::Perception &p) {
  return p.getPerceptionModality() == ht::PerceptionModality::VibrotactileTexture ||
         p.getPerceptionModality() == ht::PerceptionModality::Stiffness ||
         p.getPerceptionModality() == ht::PerceptionModality::Friction;
}
inline GenOpt streamGenOpt(const StreamOpt &s) {
  GenOpt o;
  o.wavelet = false;
  o.avatarIdMax = 255;
  o.perceptionIdMax = 255;
  o.channelIdMax = 65535;
  o.refDevIdMax = 254;
  o.effectIdMax = 65535;
  o.priorityMax = 255;
  o.negativePriority = false;
  o.negativeIds = false;
  o.gainMax = 10000;
  o.mixMax = 10000;
  o.freqLimitMax = 65535;
  o.kfFreqMax = 65535;
  o.maxString = 40;
  o.bodyTargets = s.bodyTargets;
  o.simpleProfileSometimes = false;
  o.optionalKeyframeFields = true;
  return o;
}
// items without content are not part of a stream
inline void prune(ht::Haptics &h) {
  for (int i = (int)h.getPerceptionsSize() - 1; i >= 0; i--) {
    auto &p = h.getPerceptionAt(i);
    for (int c = (int)p.getChannelsSize() - 1; c >= 0; c--) {
      auto &ch = p.getChannelAt(c);
      for (int b = (int)ch.getBandsSize() - 1; b >= 0; b--) {
        auto &bd = ch.getBandAt(b);
        for (int e = (int)bd.getEffectsSize() - 1; e >= 0; e--)
          if (bd.getBandType() != ht::BandType::WaveletWave && bd.getEffectAt(e).getEffectType() == ht::EffectType::Basis &&
              bd.getEffectAt(e).getKeyframesSize() == 0)
            bd.removeEffectAt(e);
        if (bd.getEffectsSize() == 0) ch.removeBandAt(b);
      }
      if (ch.getBandsSize() == 0) p.removeChannelAt(c);
    }
    if (p.getChannelsSize() == 0) h.removePerceptionAt(i);
  }
}
// keeps only content an HMPG stream represents
inline void fitStream(ht::Haptics &h, Rng &r, const StreamOpt &so, Gen &g) {
  std::vector<int> usedIds;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    for (int k = 0; k < (int)p.getEffectLibrarySize(); k++) usedIds.push_back(p.getBasisEffectAt(k).getId());
  }
  auto freshId = [&]() {
    for (;;) {
      int id = r.chance(0.7) ? (int)r.range(0, 40) : (int)r.range(0, 65535);
      if (std::find(usedIds.begin(), usedIds.end(), id) == usedIds.end()) {
        usedIds.push_back(id);
        return id;
      }
      if (r.chance(0.3)) return -1;
    }
  };
  std::set<int> chanIds;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    if (!so.spatial)
      while (spatialModality(p))
        p.setPerceptionModality(static_cast<ht::PerceptionModality>(r.range(0, 13)));
    if (p.getPriority() && *p.getPriority() == 0) p.setPriority(1);
    for (int c = 0; c < (int)p.getChannelsSize(); c++) {
      auto &ch = p.getChannelAt(c);
      if (ch.getPriority() && *ch.getPriority() == 0) ch.setPriority(255);
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getPriority() && *bd.getPriority() == 0) bd.setPriority(7);
        for (int e = (int)bd.getEffectsSize() - 1; e >= 0; e--) {
          auto &ef = bd.getEffectAt(e);
          if (ef.getEffectType() == ht::EffectType::Basis) {
            if (ef.getKeyframesSize() == 0) {
              if (so.emptyParts) continue;
              if (r.chance(0.5)) {
                ht::Keyframe k(0, 0.5F, bd.getBandType() == ht::BandType::Curve ? std::nullopt : std::optional<int>(70));
                ef.addKeyframe(k);
              } else {
                bd.removeEffectAt(e);
                continue;
              }
            }
            if (bd.getBandType() == ht::BandType::Transient) {
              // a transient carries no wave shape in the stream
            }
            if (so.explicitIds && r.chance(0.2)) ef.setId(freshId());
          }
        }
      }
    }
  }
  (void)g;
}
// groups some effects of a band into (nested) composites at the origin; the stream carries their content
inline void compose(ht::Haptics &h, Rng &r) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getBandType() == ht::BandType::WaveletWave || bd.getEffectsSize() < 1 || !r.chance(0.4)) continue;
        ht::Effect co(0, ht::EffectType::Composite), in(0, ht::EffectType::Composite);
        for (int e = (int)bd.getEffectsSize() - 1; e >= 0; e--) {
          if (r.chance(0.4)) continue;
          auto ef = bd.getEffectAt(e);
          if (r.chance(0.3)) in.addTimelineEffect(ef);
          else co.addTimelineEffect(ef);
          bd.removeEffectAt(e);
        }
        if (in.getTimelineSize()) co.addTimelineEffect(in);
        if (co.getTimelineSize()) bd.addEffect(co);
      }
    }
}
inline std::string stripLast(const std::string &p, const char *suffix) {
  size_t n = strlen(suffix);
  if (p.size() >= n && p.compare(p.size() - n, n, suffix) == 0) return p.substr(0, p.size() - n);
  return "";
}
// What a decoder has to find: defaults made explicit where the stream always carries the field.
inline Dump streamExpected(ht::Haptics h) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    p.setUnitExponent(p.getUnitExponentOrDefault());
    p.setPerceptionUnitExponent(p.getPerceptionUnitExponentOrDefault());
    for (int d = 0; d < (int)p.getReferenceDevicesSize(); d++) {
      auto &rd = p.getReferenceDeviceAt(d);
      if (!rd.getBodyPartMask()) rd.setBodyPartMask(0);
    }
    for (int e = 0; e < (int)p.getEffectLibrarySize(); e++) {
      auto &ef = p.getBasisEffectAt(e);
      if (ef.getEffectType() != ht::EffectType::Basis) continue;
      ef.setPhase(ef.getPhaseOrDefault());
      ef.setBaseSignal(ef.getBaseSignalOrDefault());
    }
    for (int c = 0; c < (int)p.getChannelsSize(); c++) {
      auto &ch = p.getChannelAt(c);
      if (ch.getActuatorResolution()) {
        ch.setBodyPartMask(0);
        if (!ch.getBodyPartTarget()) ch.setBodyPartTarget(std::vector<ht::BodyPartTarget>{});
        if (!ch.getActuatorTarget()) ch.setActuatorTarget(std::vector<ht::Vector>{});
      }
      if (ch.getFrequencySampling() && !ch.getSampleCount()) ch.setSampleCount(0U);
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getBandType() == ht::BandType::Curve) bd.setCurveType(bd.getCurveTypeOrDefault());
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto &ef = bd.getEffectAt(e);
          if (ef.getEffectType() == ht::EffectType::Basis && bd.getBandType() == ht::BandType::VectorialWave) {
            ef.setPhase(ef.getPhaseOrDefault());
            ef.setBaseSignal(ef.getBaseSignalOrDefault());
          }
        }
      }
    }
  }
  auto d = dumpHaptics(h);
  // timed transient effects have no wave shape in the stream; references carry no meaning of their own
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      for (int b = 0; b < (int)ch.getBandsSize(); b++)
        for (int e = 0; e < (int)ch.getBandAt(b).getEffectsSize(); e++) {
          std::string q = "p[" + std::to_string(i) + "].c[" + std::to_string(c) + "].b[" + std::to_string(b) + "].e[" + std::to_string(e) + "]";
          auto &ef = ch.getBandAt(b).getEffectAt(e);
          if (ch.getBandAt(b).getBandType() == ht::BandType::Transient || ef.getEffectType() == ht::EffectType::Reference) {
            d.erase(q + ".phase");
            d.erase(q + ".signal");
          }
          if (ef.getEffectType() == ht::EffectType::Reference) d.erase(q + ".semantic");
          else d.erase(q + ".id");
        }
    }
  if (!d.count("timescale")) d["timescale"] = Val::n(h.getTimescaleOrDefault());
  return d;
}
inline void dropBasisIds(Dump &d) {
  for (auto it = d.begin(); it != d.end();) {
    auto base = stripLast(it->first, ".id");
    auto t = base.empty() ? d.end() : d.find(base + ".type");
    if (base.find(".e[") != std::string::npos && t != d.end() && t->second.d == 0)
      it = d.erase(it);
    else
      ++it;
  }
}
inline std::string longText(Rng &r, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += (char)r.range(1, 255);
  return s;
}
// unusual but representable content: long texts, many items, composites, distant effects
inline void spice(ht::Haptics &h, Rng &r, Gen &g) {
  if (r.chance(0.15)) {
    auto hd = longText(r, r.chance(0.5) ? 255 : (int)r.range(100, 255));
    h.setDescription(hd);
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
      auto d = longText(r, (int)r.range(200, 255));
      h.getPerceptionAt(i).setDescription(d);
      for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
        auto t = longText(r, (int)r.range(200, 255));
        h.getPerceptionAt(i).getChannelAt(c).setDescription(t);
      }
    }
  }
  if (h.getPerceptionsSize() && r.chance(0.1)) { // a composite in the library
    auto &p = h.getPerceptionAt((int)r.range(0, (long long)h.getPerceptionsSize() - 1));
    ht::Effect e((int)r.range(0, 30000000), ht::EffectType::Composite);
    e.setId((int)r.range(60000, 65535));
    int n = r.chance(0.08) ? (int)r.range(250, 520) : (int)r.range(1, 4);
    for (int i = 0; i < n; i++) {
      ht::Effect t((int)r.range(0, 50000), ht::EffectType::Basis);
      t.setId((int)r.range(0, 65535));
      g.fillBasis(t, ht::BandType::VectorialWave);
      t.setPhase(t.getPhaseOrDefault());
      t.setBaseSignal(t.getBaseSignalOrDefault());
      if (r.chance(0.3)) {
        ht::Effect c2((int)r.range(0, 50000), ht::EffectType::Composite);
        c2.setId((int)r.range(0, 65535));
        c2.addTimelineEffect(t);
        e.addTimelineEffect(c2);
      } else
        e.addTimelineEffect(t);
    }
    p.addBasisEffect(e);
  }
  if (h.getPerceptionsSize() && r.chance(0.04)) { // many bands
    auto &p = h.getPerceptionAt((int)r.range(0, (long long)h.getPerceptionsSize() - 1));
    if (p.getChannelsSize() == 0) return;
    int total = 0;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
      for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
        total += (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize();
    int n = std::max(0, (r.chance(0.5) ? 256 : (int)r.range(20, 200)) - total);
    auto &ch = p.getChannelAt((int)r.range(0, (long long)p.getChannelsSize() - 1));
    n = std::min(n, 255 - (int)ch.getBandsSize());
    for (int i = 0; i < n; i++) {
      ht::Band b(ht::BandType::Curve, i, 300 + i);
      b.setCurveType(ht::CurveType::Linear);
      ht::Effect e((int)r.range(0, 500), ht::EffectType::Basis);
      ht::Keyframe k(0, 0.25F, std::nullopt), k2((int)r.range(1, 60), -0.25F, std::nullopt);
      e.addKeyframe(k);
      e.addKeyframe(k2);
      b.addEffect(e);
      ch.addBand(b);
    }
  }
  if (h.getPerceptionsSize() && r.chance(0.06)) { // many channels
    auto &p = h.getPerceptionAt((int)r.range(0, (long long)h.getPerceptionsSize() - 1));
    if (p.getChannelsSize() == 0) return;
    std::set<int> ids;
    for (int c = 0; c < (int)p.getChannelsSize(); c++) ids.insert(p.getChannelAt(c).getId());
    int n = (int)r.range(3, 12), total = 0;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
      for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
        total += (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize();
    n = std::min(n, 256 - total);
    for (int i = 0; i < n; i++) {
      auto ch = p.getChannelAt(0);
      int id = (int)r.range(0, 65535);
      if (!ids.insert(id).second) continue;
      while (ch.getBandsSize() > 1) ch.removeBandAt(0);
      if (ch.getBandsSize() == 0) break;
      auto &b = ch.getBandAt(0);
      for (int e = 0; e < (int)b.getEffectsSize(); e++)
        if (b.getEffectAt(e).getEffectType() == ht::EffectType::Basis) b.getEffectAt(e).setId(-1);
      ch.setId(id);
      p.addChannel(ch);
    }
  }
}
// moves every effect after a chosen instant far away: long silences
inline long long farGap(ht::Haptics &h, Rng &r) {
  long long gap = r.range(1 << 20, 400000000LL);
  int at = (int)r.range(0, 6000);
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      if (spatialModality(h.getPerceptionAt(i))) continue;
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      for (int b = 0; b < (int)ch.getBandsSize(); b++)
        for (int e = 0; e < (int)ch.getBandAt(b).getEffectsSize(); e++) {
          auto &ef = ch.getBandAt(b).getEffectAt(e);
          if (ef.getPosition() >= at) ef.setPosition((int)(ef.getPosition() + gap));
        }
    }
  return gap;
}
// bands of wavelet blocks laid out on their block grid; returns the number of blocks added
inline long addWaveletBands(ht::Haptics &h, Rng &r, Gen &g) {
  int total = 0;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      total += (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize();
  long blocks = 0;
  bool any = false;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      if (spatialModality(h.getPerceptionAt(i))) continue;
      if ((any && r.chance(0.5)) || total >= 256 || ch.getBandsSize() >= 255) continue;
      total++;
      any = true;
      int bl = r.chance(0.4) ? 1 << r.range(0, 7) : (int)r.range(1, 255);
      int hi = (int)r.range(1, 65535);
      ht::Band b(ht::BandType::WaveletWave, bl, 0, hi);
      if (r.chance(0.3)) b.setPriority((int)r.range(1, 255));
      int n = (int)r.range(1, r.chance(0.2) ? 60 : 14);
      long long pos = 0;
      bool sem = r.chance(0.4);
      for (int k = 0; k < n; k++) {
        ht::Effect e((int)pos, ht::EffectType::Basis);
        std::vector<unsigned char> v;
        int len = r.chance(0.02) ? (int)r.range(0, 1500) : (int)r.range(r.chance(0.05) ? 0 : 1, 50);
        for (int q = 0; q < len; q++) v.push_back((unsigned char)r.range(0, 255));
        e.setWaveletBitstream(v);
        if (sem && r.chance(0.5)) {
          auto t = g.semantic();
          e.setSemantic(t);
        }
        b.addEffect(e);
        blocks++;
        pos += bl;
      }
      ch.addBand(b);
    }
  return blocks;
}
// starts some wavelet bands later: at the first block boundary of a packet
inline void delayWaveletBands(ht::Haptics &h, Rng &r, int pd) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++) {
      auto &ch = h.getPerceptionAt(i).getChannelAt(c);
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getBandType() != ht::BandType::WaveletWave || !r.chance(0.2)) continue;
        long long bl = bd.getBlockLengthOrDefault(), start = pd * r.range(1, 5);
        if (start > 5000000) continue;
        start = (start + bl - 1) / bl * bl;
        for (int e = (int)bd.getEffectsSize() - 1; e >= 0; e--)
          bd.getEffectAt(e).setPosition((int)(bd.getEffectAt(e).getPosition() + start));
      }
    }
}
enum class Part { All, Meta, Effects };
inline Tol streamTol(Part part) {
  return [part](const std::string &p) -> double {
    bool eff = p.find(".e[") != std::string::npos || p.find(".#effects") != std::string::npos;
    if (p.find("s[]") == 0 || p == "#syncs") return -1;
    if (part == Part::Meta && eff) return -1;
    if (part == Part::Effects && !eff) return -1;
    auto ends = [&](const char *s) { return !stripLast(p, s).empty(); };
    if (ends(".amp")) return 1.01 / 127.5;
    if (ends(".phase")) return 1.01 * 6.28318 / 65535;
    if (ends(".gain")) return 0.0025;
    if (ends(".mixing")) return 0.0013;
    if (p.find(".rd[]") != std::string::npos && !ends(".id") && !ends(".name") && !ends(".type") && !ends(".bodymask"))
      return ends(".custom") ? 0.0025 : 0.0013;
    return 0;
  };
}
} // namespace vf
