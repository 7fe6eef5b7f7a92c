// Random conformant haptic documents.
#pragma once
#include "model.hpp"
#include <algorithm>

namespace vf {

struct GenOpt {
  int minPerceptions = 0, maxPerceptions = 3, maxAvatars = 3, maxSyncs = 3;
  int maxChannels = 3, maxBands = 4, maxEffects = 5, maxKeyframes = 6, maxRefDevs = 2;
  int maxLibrary = 3, maxVertices = 4;
  bool transient = true, curve = true, vectorial = true, wavelet = true;
  bool reference = true, composite = false, semantics = true, scheme = true, priorities = true;
  bool fullUnicode = true;      // strings may hold escapes and multi-byte characters
  int maxString = 24;
  long long intId = 2147483647; // largest id
  bool negativeIds = true;
  int avatarIdMax = 2147483647, perceptionIdMax = 2147483647, channelIdMax = 2147483647,
      refDevIdMax = 2147483647, effectIdMax = 2147483647, priorityMax = 2147483647;
  bool negativePriority = true;
  double gainMax = 1000, mixMax = 1000;
  double refDevMax = 10000;
  int freqLimitMax = 20000;
  int posMax = 100000;
  int relPosMax = 20000;
  int kfFreqMax = 20000;
  bool optionalKeyframeFields = true;
  bool sparseOptions = true;
  double phaseMax = 6.28;
  bool simpleProfileSometimes = true;
  bool bodyTargets = true;
  int maxLevel2Bands = 9;
  bool waveletAligned = false; // wavelet effects at multiples of the block duration
  int maxBitstream = 40;
  long long maxTimescale = 48000;
  double plenty = 0.05; // how often one kind of item comes in hundreds
};

struct Gen {
  Rng &r;
  GenOpt o;
  bool level2 = false;
  int lots = 0; // the kind of item this document has plenty of
  Gen(Rng &rng, GenOpt opt) : r(rng), o(opt) {}
  enum { Keyframes = 1, Effects, Vertices, Channels, Library, Avatars, Devices, Bands, Targets, Bitstream, Kinds };
  // how many items of a kind: at most `usual`, but hundreds once in a while
  int count(int kind, int from, int usual, int most) {
    if (lots == kind && usual > 0 && r.chance(0.5)) {
      lots = 0;
      return (int)r.range(std::min(most / 2, r.chance(0.5) ? 120 : 250), most);
    }
    return (int)r.range(from, usual);
  }

  std::string str(int maxLen) {
    int n = (int)r.range(0, maxLen);
    std::string s;
    static const std::vector<std::string> special = {
        "\"", "\\", "/", "\n", "\t", "\r", "\b", "\x01", "\x1f", "\x7f", "{", "}", "[", "]", ",",
        ":", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\u0041", "'", "<", "&", "%s"};
    while ((int)s.size() < n) {
      std::string p;
      if (o.fullUnicode && r.chance(0.25))
        p = r.pick(special);
      else
        p = std::string(1, static_cast<char>(r.range(32, 126)));
      if ((int)(s.size() + p.size()) > n) break;
      s += p;
    }
    return s;
  }
  int anyInt(long long max, bool neg) {
    switch (r.range(0, 5)) {
    case 0: return (int)r.range(0, std::min<long long>(max, 4));
    case 1: return (int)max;
    case 2: return neg ? -(int)r.range(1, std::min<long long>(max, 1000)) : 0;
    default: return (int)r.range(0, max);
    }
  }
  float realIn(double lo, double hi) {
    switch (r.range(0, 7)) {
    case 0: return (float)lo;
    case 1: return (float)hi;
    case 2: return lo <= 0 && hi >= 0 ? 0.F : (float)lo;
    case 3: return (float)std::round(r.real(lo, hi));
    default: {
      float f = (float)r.real(lo, hi);
      if (f < lo) f = (float)lo;
      if (f > hi) f = (float)hi;
      return f;
    }
    }
  }
  std::set<int> uniqueIds(int n, int max, bool zero, bool neg) {
    std::set<int> s;
    bool small = r.chance(0.5);
    int guard = 0;
    while ((int)s.size() < n && guard++ < 1000 + 10 * n) {
      int v = small ? (int)r.range(0, std::min(max, 2 * n + 2)) : anyInt(max, neg);
      if (!zero && v == 0) continue;
      s.insert(v);
    }
    return s;
  }
  std::vector<int> shuffled(const std::set<int> &s) {
    std::vector<int> v(s.begin(), s.end());
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.range(0, (long long)i - 1)]);
    return v;
  }
  std::string version() {
    std::string s = std::to_string(r.range(2023, 2050));
    if (r.chance(0.3)) s += "-" + std::to_string(r.range(1, 9));
    return s;
  }
  std::string date() {
    char b[64];
    switch (r.range(0, 2)) {
    case 0: snprintf(b, sizeof b, "%04d", (int)r.range(1990, 2099)); break;
    case 1: snprintf(b, sizeof b, "%04d-%02d", (int)r.range(1990, 2099), (int)r.range(1, 12)); break;
    default:
      snprintf(b, sizeof b, "%04d-%02d-%02d", (int)r.range(1990, 2099), (int)r.range(1, 12),
               (int)r.range(1, 28));
    }
    return b;
  }
  std::string semantic() {
    auto it = ht::stringToEffectSemantic.begin();
    std::advance(it, r.range(0, (long long)ht::stringToEffectSemantic.size() - 1));
    return it->first;
  }
  ht::Keyframe keyframe(ht::BandType bt, int &pos) {
    // Transient / Vectorial: amplitude and frequency ; Curve: amplitude only
    ht::Keyframe k(std::nullopt, std::nullopt, std::nullopt);
    bool p = true, a = true, f = bt != ht::BandType::Curve;
    if (o.optionalKeyframeFields) {
      if (bt == ht::BandType::VectorialWave) {
        a = r.chance(0.8);
        f = !a || r.chance(0.7);
      }
    }
    if (p) k.setRelativePosition(pos);
    pos += (int)r.range(1, std::max(1, o.relPosMax / std::max(1, o.maxKeyframes)));
    if (a) k.setAmplitudeModulation(realIn(-1, 1));
    if (f) k.setFrequencyModulation((int)r.range(0, o.kfFreqMax));
    return k;
  }
  ht::Effect effect(ht::Band &b, const std::vector<int> &libIds, int idx) {
    auto bt = b.getBandType();
    int pos = (int)r.range(0, o.posMax);
    ht::Effect e(pos, ht::EffectType::Basis);
    if (o.reference && !libIds.empty() && r.chance(0.2)) {
      e.setEffectType(ht::EffectType::Reference);
      e.setId(r.pick(libIds));
    } else {
      fillBasis(e, bt);
    }
    if (o.semantics && r.chance(0.3)) {
      auto s = semantic();
      e.setSemantic(s);
    }
    (void)idx;
    return e;
  }
  void fillBasis(ht::Effect &e, ht::BandType bt) {
    if (bt == ht::BandType::WaveletWave) {
      std::vector<unsigned char> v;
      int n = count(Bitstream, o.waveletAligned ? 1 : 0, o.maxBitstream, 2000);
      for (int i = 0; i < n; i++) v.push_back((unsigned char)r.range(0, 255));
      if (!v.empty() && v.back() == 0) v.back() = (unsigned char)r.range(1, 255);
      e.setWaveletBitstream(v);
      return;
    }
    if (bt != ht::BandType::Curve) {
      if (r.chance(0.7)) e.setPhase(realIn(0, o.phaseMax));
      if (r.chance(0.7)) e.setBaseSignal(static_cast<ht::BaseSignal>(r.range(0, 4)));
    }
    int usual = o.maxKeyframes, n = count(Keyframes, 0, usual, 700);
    o.maxKeyframes = std::max(usual, n); // the same duration
    int p = r.chance(0.8) ? 0 : (int)r.range(0, std::max(0, o.relPosMax / std::max(1, n)));
    for (int i = 0; i < n; i++) {
      auto k = keyframe(bt, p);
      e.addKeyframe(k);
    }
    o.maxKeyframes = usual;
  }
  ht::Band band(const std::vector<int> &libIds, bool allowWavelet) {
    std::vector<ht::BandType> ts;
    if (o.transient) ts.push_back(ht::BandType::Transient);
    if (o.curve) ts.push_back(ht::BandType::Curve);
    if (o.vectorial) ts.push_back(ht::BandType::VectorialWave);
    if (o.wavelet && allowWavelet) ts.push_back(ht::BandType::WaveletWave);
    auto bt = r.pick(ts);
    int lo = (int)r.range(0, o.freqLimitMax), hi = (int)r.range(0, o.freqLimitMax);
    if (lo > hi) std::swap(lo, hi);
    ht::Band b(bt, lo, hi);
    if (bt == ht::BandType::Curve) b.setCurveType(static_cast<ht::CurveType>(r.range(0, 5)));
    if (bt == ht::BandType::WaveletWave) b.setBlockLength(1 << r.range(4, 11));
    if (o.priorities && r.chance(0.4)) b.setPriority(anyInt(o.priorityMax, o.negativePriority));
    int n = count(Effects, 0, o.maxEffects, 400);
    for (int i = 0; i < n; i++) {
      auto e = effect(b, libIds, i);
      // distinct positions inside a band (order of simultaneous effects is not meaningful)
      bool dup = false;
      for (int k = 0; k < (int)b.getEffectsSize(); k++)
        dup = dup || b.getEffectAt(k).getPosition() == e.getPosition();
      if (!dup) b.addEffect(e);
    }
    return b;
  }
  ht::Channel channel(int id, const std::vector<int> &libIds, const std::vector<int> &devs,
                      bool allowWavelet) {
    ht::Channel c(id, str(o.maxString), realIn(-o.gainMax, o.gainMax), realIn(0, o.mixMax),
                  r.chance(0.5) ? 0U : (uint32_t)r.range(0, 4294967295LL));
    if (o.priorities && r.chance(0.4)) c.setPriority(anyInt(o.priorityMax, o.negativePriority));
    if (!devs.empty() && r.chance(0.6)) c.setReferenceDeviceId(r.pick(devs));
    if (r.chance(0.5)) {
      c.setFrequencySampling((uint32_t)r.range(1, 48000));
      if (r.chance(0.7)) c.setSampleCount((uint32_t)r.range(1, 100000));
    }
    if (r.chance(0.4)) {
      static const std::vector<std::array<int, 3>> dirs = {
          {127, 0, 0}, {0, 127, 0}, {0, 0, 127}, {-127, 0, 0}, {0, -127, 0}, {0, 0, -127},
          {90, 90, 0}, {-90, 0, 90}, {73, 73, -73}, {-73, -73, -73}};
      auto d = r.pick(dirs);
      c.setDirection(ht::Vector((int8_t)d[0], (int8_t)d[1], (int8_t)d[2]));
    }
    if (o.bodyTargets && r.chance(0.5)) {
      int x = (int)r.range(0, 127), y = (int)r.range(0, 127), z = (int)r.range(0, 127);
      c.setActuatorResolution(ht::Vector((int8_t)x, (int8_t)y, (int8_t)z));
      if (r.chance(0.8)) {
        std::vector<ht::Vector> t;
        int n = count(Targets, 1, 4, 255);
        for (int i = 0; i < n; i++)
          t.emplace_back((int8_t)r.range(0, x), (int8_t)r.range(0, y), (int8_t)r.range(0, z));
        c.setActuatorTarget(t);
      }
      if (r.chance(0.8)) {
        std::vector<ht::BodyPartTarget> t;
        int n = count(Targets, 1, 4, 255);
        for (int i = 0; i < n; i++) {
          auto it = ht::bodyPartTargetToString.begin();
          std::advance(it, r.range(0, (long long)ht::bodyPartTargetToString.size() - 1));
          t.push_back(it->first);
        }
        c.setBodyPartTarget(t);
      }
    }
    int nv = count(Vertices, 0, o.maxVertices, 700);
    if (r.chance(0.5))
      for (int i = 0; i < nv; i++) {
        int v = (int)r.range(0, 65535);
        c.addVertex(v);
      }
    int nb = level2 ? count(Bands, 0, o.maxBands, 63) : (int)r.range(0, o.maxBands);
    for (int i = 0; i < nb; i++) {
      auto b = band(libIds, allowWavelet);
      c.addBand(b);
    }
    return c;
  }
  ht::ReferenceDevice refDev(int id) {
    ht::ReferenceDevice d(id, str(o.maxString));
    if (r.chance(0.5)) d.setBodyPartMask((uint32_t)r.range(0, 4294967295LL));
    float f[3] = {realIn(0, o.refDevMax), realIn(0, o.refDevMax), realIn(0, o.refDevMax)};
    std::sort(f, f + 3);
    if (r.chance(0.5)) d.setMinimumFrequency(f[0]);
    if (r.chance(0.5)) d.setResonanceFrequency(f[1]);
    if (r.chance(0.5)) d.setMaximumFrequency(f[2]);
    if (r.chance(0.5)) d.setMaximumAmplitude(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setImpedance(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setMaximumVoltage(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setMaximumCurrent(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setMaximumDisplacement(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setWeight(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setSize(realIn(0, o.refDevMax));
    if (r.chance(0.5)) d.setCustom(realIn(-o.refDevMax, o.refDevMax));
    if (r.chance(0.5)) d.setType(static_cast<ht::ActuatorType>(r.range(0, 4)));
    return d;
  }
  ht::Perception perception(int id, int avatar, bool simple1, bool simple, int level) {
    std::vector<ht::PerceptionModality> mods;
    for (int i = 0; i <= 13; i++) mods.push_back(static_cast<ht::PerceptionModality>(i));
    if (simple1)
      mods = {ht::PerceptionModality::Force, ht::PerceptionModality::Vibrotactile,
              ht::PerceptionModality::Stiffness, ht::PerceptionModality::VibrotactileTexture};
    ht::Perception p(id, avatar, str(o.maxString), r.pick(mods));
    if (o.priorities && r.chance(0.4)) p.setPriority(anyInt(o.priorityMax, o.negativePriority));
    if (r.chance(0.5)) p.setUnitExponent((int8_t)r.range(-128, 127));
    if (r.chance(0.5)) p.setPerceptionUnitExponent((int8_t)r.range(-128, 127));
    if (o.scheme && r.chance(0.3)) {
      std::string s = "urn:mpeg:mpegi:haptics:effectsemantic:2023";
      p.setEffectSemanticScheme(s);
    }
    auto devIds = shuffled(uniqueIds(count(Devices, 0, o.maxRefDevs, std::min(o.refDevIdMax, 255) - 5), o.refDevIdMax, true, o.negativeIds));
    for (int d : devIds) {
      auto rd = refDev(d);
      p.addReferenceDevice(rd);
    }
    auto libIds = shuffled(uniqueIds(r.chance(0.5) ? count(Library, 0, o.maxLibrary, 400) : 0,
                                     o.effectIdMax, true, o.negativeIds));
    for (int l : libIds) {
      ht::Effect e((int)r.range(0, o.posMax), ht::EffectType::Basis);
      e.setId(l);
      fillBasis(e, r.pick(std::vector<ht::BandType>{ht::BandType::Transient,
                                                    ht::BandType::VectorialWave}));
      if (o.semantics && r.chance(0.3)) {
        auto s = semantic();
        e.setSemantic(s);
      }
      p.addBasisEffect(e);
    }
    auto chIds = shuffled(uniqueIds(level == 2 ? count(Channels, 0, o.maxChannels, 200) : (int)r.range(0, o.maxChannels), o.channelIdMax, true, o.negativeIds));
    level2 = level == 2;
    int saveBands = o.maxBands;
    if (level == 1) o.maxBands = std::min(o.maxBands, 7);
    int saveEffects = o.maxEffects;
    if (chIds.size() > 50) o.maxEffects = std::min(o.maxEffects, 2);
    for (int c : chIds) {
      auto ch = channel(c, libIds, devIds, !simple);
      p.addChannel(ch);
    }
    o.maxBands = saveBands;
    o.maxEffects = saveEffects;
    return p;
  }
  ht::Haptics haptics() {
    ht::Haptics h(version(), date(), str(o.maxString));
    lots = r.chance(o.plenty) ? (int)r.range(1, Kinds - 1) : 0;
    if (lots) R.stat("plenty");
    bool simple = o.simpleProfileSometimes && r.chance(0.25);
    std::string prof = simple ? "Simple Parametric" : "Main";
    h.setProfile(prof);
    int level = (int)r.range(1, 2);
    h.setLevel((uint8_t)level);
    if (simple)
      h.setTimescale(1000U);
    else
      switch (r.range(0, 3)) {
      case 0: h.setTimescale((unsigned)o.maxTimescale); break;
      case 1: h.setTimescale((unsigned)r.range(1, o.maxTimescale)); break;
      default: h.setTimescale(1000U);
      }
    auto av = shuffled(uniqueIds(count(Avatars, 0, o.maxAvatars, std::min(o.avatarIdMax, 255) - 5), o.avatarIdMax, false, o.negativeIds));
    for (int a : av) {
      ht::Avatar x(a, (int)r.range(0, 255), static_cast<ht::AvatarType>(r.range(0, 3)));
      if (x.getType() == ht::AvatarType::Custom) {
        std::string m = "mesh://a/" + std::to_string(r.range(0, 9999)) + ".obj";
        x.setMesh(m);
      }
      h.addAvatar(x);
    }
    auto ids = shuffled(uniqueIds((int)r.range(o.minPerceptions, o.maxPerceptions),
                                  o.perceptionIdMax, true, o.negativeIds));
    for (int i : ids) {
      int a = av.empty() || r.chance(0.3) ? 0 : r.pick(av);
      auto p = perception(i, a, simple && level == 1, simple, level);
      h.addPerception(p);
    }
    int ns = (int)r.range(0, o.maxSyncs);
    for (int i = 0; i < ns; i++) {
      ht::Sync s((int)r.range(0, 1000000));
      if (r.chance(0.5)) s.setTimescale((unsigned)r.range(1, 48000));
      h.addSync(s);
    }
    return h;
  }
};
} // namespace vf
