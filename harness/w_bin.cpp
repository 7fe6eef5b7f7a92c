// Bit-level fields and the binary haptic file.
#include "format.hpp"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOBinaryPrimitives.h>
using namespace vf;
using haptics::io::IOBinary;
using haptics::io::IOMemoryBuffer;
using P = haptics::io::IOBinaryPrimitives;

// ---------------------------------------------------------------------------------------------
// fields
// ---------------------------------------------------------------------------------------------
enum class FK { UInt, SInt, Bool, Text, Real, Vec };
struct Field {
  FK kind;
  int type = 0; // index in the table
  int width = 0;
  long long i = 0;
  std::string s;
  double v = 0, lo = 0, hi = 1;
  int8_t x = 0, y = 0, z = 0;
  size_t bit = 0; // where it starts
  size_t bits = 0;
};
struct IntOps {
  const char *name;
  int width;
  bool isSigned; // read back as signed: the width is the width of the type
  void (*write)(long long, std::vector<bool> &);
  long long (*read)(std::istream &, std::vector<bool> &);
};
template <class T, size_t W> IntOps intOps(const char *n, bool sg) {
  return {n, (int)W, sg,
          [](long long v, std::vector<bool> &o) { P::writeNBits<T, W>(static_cast<T>(v), o); },
          [](std::istream &f, std::vector<bool> &u) -> long long { return (long long)P::readNBits<T, W>(f, u); }};
}
struct RealOps {
  const char *name;
  int width;
  void (*write)(float, std::vector<bool> &, float, float);
  float (*read)(std::istream &, float, float, std::vector<bool> &);
  float (*readBits)(std::vector<bool> &, int &, float, float);
};
template <class T, size_t W> RealOps realOps(const char *n) {
  return {n, (int)W,
          [](float v, std::vector<bool> &o, float lo, float hi) { P::writeFloatNBits<T, W>(v, o, lo, hi); },
          [](std::istream &f, float lo, float hi, std::vector<bool> &u) { return P::readFloatNBits<T, W>(f, lo, hi, u); },
          [](std::vector<bool> &b, int &i, float lo, float hi) { return P::readFloatNBits<W>(b, i, lo, hi); }};
}
#define I(T, W, S) intOps<T, W>(#T "/" #W, S)
static const std::vector<IntOps> &ints() {
  static const std::vector<IntOps> t = {
      I(uint8_t, 1, false),   I(uint8_t, 2, false),   I(uint8_t, 3, false),   I(uint8_t, 4, false),
      I(uint8_t, 5, false),   I(uint8_t, 6, false),   I(uint8_t, 7, false),   I(uint8_t, 8, false),
      I(uint16_t, 4, false),  I(uint16_t, 9, false),  I(uint16_t, 11, false), I(uint16_t, 12, false),
      I(uint16_t, 15, false), I(uint16_t, 16, false), I(unsigned short, 8, false),
      I(uint32_t, 1, false),  I(uint32_t, 16, false), I(uint32_t, 17, false), I(uint32_t, 24, false),
      I(uint32_t, 25, false), I(uint32_t, 31, false), I(uint32_t, 32, false),
      I(int, 8, false),       I(int, 16, false),      I(int, 25, false),      I(int, 31, false),
      I(short, 8, false),     I(short, 15, false),    I(int, 32, true),       I(int8_t, 8, true),
      I(short, 16, true),     I(char, 7, false)};
  return t;
}
#undef I
#define F(T, W) realOps<T, W>(#T "/" #W)
static const std::vector<RealOps> &reals() {
  static const std::vector<RealOps> t = {F(uint8_t, 3),   F(uint8_t, 8),   F(uint16_t, 8), F(uint16_t, 12),
                                         F(uint16_t, 16), F(uint32_t, 16), F(uint32_t, 24), F(uint32_t, 31),
                                         F(uint32_t, 32)};
  return t;
}
#undef F
static Field anyField(Rng &r) {
  Field f;
  switch (r.range(0, 9)) {
  case 0: case 1: case 2: case 3: {
    f.type = (int)r.range(0, (long long)ints().size() - 1);
    auto &o = ints()[f.type];
    f.width = o.width;
    f.kind = o.isSigned ? FK::SInt : FK::UInt;
    long long lo = o.isSigned ? -(1LL << (o.width - 1)) : 0;
    long long hi = o.isSigned ? (1LL << (o.width - 1)) - 1 : (1LL << o.width) - 1;
    switch (r.range(0, 4)) {
    case 0: f.i = lo; break;
    case 1: f.i = hi; break;
    case 2: f.i = o.isSigned ? -1 : (1LL << (o.width - 1)); break;
    default: f.i = r.range(lo, hi);
    }
    f.bits = (size_t)o.width;
    break;
  }
  case 4:
    f.kind = FK::Bool;
    f.i = r.range(0, 1);
    f.bits = 1;
    break;
  case 5: {
    f.kind = FK::Text;
    int n = r.chance(0.05) ? (int)r.range(250, 255) : r.chance(0.03) ? (int)r.range(256, 700) : (int)r.range(0, 12);
    for (int k = 0; k < n; k++) f.s += (char)r.range(0, 255);
    f.bits = 8 + 8 * (size_t)std::min(n, 255);
    break;
  }
  case 6:
    f.kind = FK::Vec;
    f.x = (int8_t)r.range(-128, 127);
    f.y = (int8_t)r.range(-128, 127);
    f.z = (int8_t)r.range(-128, 127);
    f.bits = 24;
    break;
  default: {
    f.kind = FK::Real;
    f.type = (int)r.range(0, (long long)reals().size() - 1);
    f.width = reals()[f.type].width;
    static const std::vector<std::pair<double, double>> rg = {{0, 1}, {-1, 1}, {0, 6.28318}, {-10000, 10000}, {0, 10000}, {5, 7}};
    auto q = rg[r.range(0, (long long)rg.size() - 1)];
    if (r.chance(0.2)) {
      q.first = r.real(-500, 500);
      q.second = q.first + r.real(0.01, 1000);
    }
    f.lo = (float)q.first;
    f.hi = (float)q.second;
    switch (r.range(0, 6)) {
    case 0: f.v = f.lo; break;
    case 1: f.v = f.hi; break;
    case 2: f.v = (float)((f.lo + f.hi) / 2); break;
    case 3: { // next to a level
      double st = (f.hi - f.lo) / (std::pow(2, f.width) - 1);
      f.v = (float)(f.lo + st * std::floor(r.unit() * std::pow(2, f.width)));
      break;
    }
    default: f.v = (float)r.real(f.lo, f.hi);
    }
    if (f.v < f.lo) f.v = f.lo;
    if (f.v > f.hi) f.v = f.hi;
    f.bits = (size_t)f.width;
  }
  }
  return f;
}
static void writeField(const Field &f, std::vector<bool> &o) {
  switch (f.kind) {
  case FK::UInt: case FK::SInt: ints()[f.type].write(f.i, o); break;
  case FK::Bool: P::writeNBits<bool, 1>(f.i != 0, o); break;
  case FK::Text: P::writeString(f.s, o); break;
  case FK::Vec: P::writeVector(ht::Vector(f.x, f.y, f.z), o); break;
  case FK::Real: reals()[f.type].write((float)f.v, o, (float)f.lo, (float)f.hi); break;
  }
}
static std::string show(const Field &f) {
  std::ostringstream o;
  o << "at bit " << f.bit << " ";
  switch (f.kind) {
  case FK::UInt: case FK::SInt: o << ints()[f.type].name << "=" << f.i; break;
  case FK::Bool: o << "bool=" << f.i; break;
  case FK::Text: o << "text(" << f.s.size() << ")=" << hex(f.s, 20); break;
  case FK::Vec: o << "vec=" << (int)f.x << "," << (int)f.y << "," << (int)f.z; break;
  case FK::Real: o << "real " << reals()[f.type].name << "=" << f.v << " in " << f.lo << ".." << f.hi; break;
  }
  return o.str();
}
static double step(const Field &f) {
  return (f.hi - f.lo) / (std::pow(2, f.width) - 1) + 4e-7 * std::max(std::abs(f.lo), std::abs(f.hi));
}
static void checkReal(const Field &f, float got, const char *who) {
  VCHECK(std::abs((double)got - f.v) <= step(f), std::string(who) + ":real", show(f) << " read as " << got);
  VCHECK(got >= (float)f.lo && got <= (float)f.hi, std::string(who) + ":real-out-of-range", show(f) << " read as " << got);
}
static void fields(Rng &r, long) {
  std::vector<Field> fs;
  int n = (int)r.range(1, r.chance(0.1) ? 200 : 30);
  for (int i = 0; i < n; i++) fs.push_back(anyField(r));
  std::vector<bool> bits;
  // existing content in front must stay
  int pre = (int)r.range(0, 9);
  std::vector<bool> prefix;
  for (int i = 0; i < pre; i++) prefix.push_back(r.chance(0.5));
  bits = prefix;
  uint64_t h = 3;
  for (auto &f : fs) {
    f.bit = bits.size();
    auto before = bits;
    writeField(f, bits);
    VCHECK(bits.size() == f.bit + f.bits, "written-size", show(f) << " took " << bits.size() - f.bit << " bits");
    bool keep = std::equal(before.begin(), before.end(), bits.begin());
    VCHECK(keep, "earlier-bits-changed", show(f));
    h = mix(h ^ hashStr(show(f)));
    R.stat("fields");
  }
  R.identity(h, fs.size() > 1);
  R.sample("prefix bits " + std::to_string(pre) + "; " + show(fs[0]) + "; " + show(fs.back()));
  // independent view of the integers: most significant bit first
  for (auto &f : fs)
    if (f.kind == FK::UInt || f.kind == FK::SInt || f.kind == FK::Bool) {
      bool ok = true;
      for (size_t k = 0; k < f.bits && f.bit + k < bits.size(); k++)
        ok = ok && bits[f.bit + k] == (((unsigned long long)f.i >> (f.bits - k - 1)) & 1);
      VCHECK(ok, "bit-order", show(f));
    }
  size_t used = bits.size();
  // bytes
  auto padded = bits;
  P::fillBitset(padded);
  VCHECK(padded.size() == (used + 7) / 8 * 8, "padding", "used " << used << " padded " << padded.size());
  std::string want((used + 7) / 8, '\0');
  for (size_t k = 0; k < used; k++)
    if (bits[k]) want[k / 8] = (char)(want[k / 8] | (0x80 >> (k % 8)));
  std::ostringstream o1, o2;
  P::writeBitset(padded, o1);
  P::writeBitset(bits, o2);
  VCHECK(o1.str() == want, "bytes", "padded buffer written as " << hex(o1.str()) << " not " << hex(want));
  VCHECK(o2.str() == want, "bytes-unpadded", "buffer written as " << hex(o2.str()) << " not " << hex(want));
  // reading from a stream
  {
    std::istringstream in(want + "ZZZZZ");
    std::vector<bool> un;
    for (int i = 0; i < pre; i++) {
      bool b = P::readNBits<uint8_t, 1>(in, un) != 0;
      VCHECK(b == prefix[(size_t)i], "stream:prefix", "bit " << i);
    }
    for (auto &f : fs) {
      switch (f.kind) {
      case FK::UInt: case FK::SInt: {
        long long v = ints()[f.type].read(in, un);
        VCHECK(v == f.i, "stream:integer", show(f) << " read as " << v);
        break;
      }
      case FK::Bool: {
        bool v = P::readNBits<uint8_t, 1>(in, un) != 0;
        VCHECK(v == (f.i != 0), "stream:bool", show(f));
        break;
      }
      case FK::Text: {
        auto s = P::readString(in, un);
        VCHECK(s == f.s.substr(0, 255), "stream:text", show(f) << " read as (" << s.size() << ") " << hex(s, 20));
        break;
      }
      case FK::Vec: {
        auto v = P::readVector(in, un);
        VCHECK(v.X == f.x && v.Y == f.y && v.Z == f.z, "stream:vector", show(f) << " read as " << (int)v.X << "," << (int)v.Y << "," << (int)v.Z);
        break;
      }
      case FK::Real: checkReal(f, reals()[f.type].read(in, (float)f.lo, (float)f.hi, un), "stream"); break;
      }
      size_t pos = (size_t)in.tellg() * 8 - un.size();
      VCHECK(pos == f.bit + f.bits, "stream:position", show(f) << " reading stopped at bit " << pos);
    }
  }
  // reading from a bit buffer
  {
    int idx = pre;
    auto padded2 = padded;
    for (auto &f : fs) {
      switch (f.kind) {
      case FK::UInt: {
        unsigned v = (unsigned)P::readUInt(padded2, idx, (int)f.bits);
        VCHECK((long long)v == f.i, "buffer:integer", show(f) << " read as " << v);
        break;
      }
      case FK::SInt: {
        long long v = P::readInt(padded2, idx, (int)f.bits);
        VCHECK(v == f.i, "buffer:signed", show(f) << " read as " << v);
        break;
      }
      case FK::Bool: {
        int v = P::readUInt(padded2, idx, 1);
        VCHECK(v == f.i, "buffer:bool", show(f));
        break;
      }
      case FK::Text: {
        int len = P::readUInt(padded2, idx, 8);
        VCHECK(len == (int)std::min<size_t>(f.s.size(), 255), "buffer:text-length", show(f) << " " << len);
        auto s = P::readString(padded2, idx, len);
        VCHECK(s == f.s.substr(0, 255), "buffer:text", show(f) << " read as (" << s.size() << ") " << hex(s, 20));
        break;
      }
      case FK::Vec: {
        int x = P::readInt(padded2, idx, 8), y = P::readInt(padded2, idx, 8), z = P::readInt(padded2, idx, 8);
        VCHECK(x == f.x && y == f.y && z == f.z, "buffer:vector", show(f));
        break;
      }
      case FK::Real: checkReal(f, reals()[f.type].readBits(padded2, idx, (float)f.lo, (float)f.hi), "buffer"); break;
      }
      VCHECK(idx == (int)(f.bit + f.bits), "buffer:position", show(f) << " reading stopped at bit " << idx);
    }
    VCHECK(padded2 == padded, "buffer:changed-by-reading", "");
  }
  // what was read from a file is written back unchanged
  for (auto &f : fs)
    if (f.kind == FK::Real) {
      std::vector<bool> b1(bits.begin() + (long)f.bit, bits.begin() + (long)(f.bit + f.bits)), b2;
      int i = 0;
      float v = reals()[f.type].readBits(b1, i, (float)f.lo, (float)f.hi);
      reals()[f.type].write(v, b2, (float)f.lo, (float)f.hi);
      int j = 0;
      float v2 = reals()[f.type].readBits(b2, j, (float)f.lo, (float)f.hi);
      double lim = f.width <= 16 ? 4e-7 * std::max(std::abs(f.lo), std::abs(f.hi)) : step(f);
      VCHECK(std::abs((double)v2 - v) <= lim, "real-drifts", show(f) << " " << v << " then " << v2);
    }
}

// ---------------------------------------------------------------------------------------------
// binary files
// ---------------------------------------------------------------------------------------------
static void dropBandEffect(ht::Effect &e, ht::BandType bt) {
  // what a binary file carries of an effect of a band
  ht::Effect n(e.getPosition(), e.getEffectType());
  if (e.getEffectType() == ht::EffectType::Reference) {
    n.setId(e.getId());
  } else if (e.getEffectType() == ht::EffectType::Composite) {
    for (int i = 0; i < (int)e.getTimelineSize(); i++) {
      auto t = e.getTimelineEffectAt(i);
      dropBandEffect(t, bt);
      n.addTimelineEffect(t);
    }
  } else {
    if (bt == ht::BandType::VectorialWave) {
      n.setPhase(e.getPhaseOrDefault());
      n.setBaseSignal(e.getBaseSignalOrDefault());
    }
    for (int i = 0; i < (int)e.getKeyframesSize(); i++) n.addKeyframe(e.getKeyframeAt(i));
    n.setWaveletBitstream(e.getWaveletBitstream());
  }
  e = n;
}
static ht::Effect libEffect(ht::Effect &e) {
  ht::Effect n(e.getPosition(), e.getEffectType());
  n.setId(e.getId());
  if (e.getEffectType() == ht::EffectType::Basis) {
    n.setPhase(e.getPhaseOrDefault());
    n.setBaseSignal(e.getBaseSignalOrDefault());
  }
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) n.addKeyframe(e.getKeyframeAt(i));
  for (int i = 0; i < (int)e.getTimelineSize(); i++) {
    auto t = libEffect(e.getTimelineEffectAt(i));
    n.addTimelineEffect(t);
  }
  return n;
}
static Dump expectedBinary(ht::Haptics &h) {
  ht::Haptics o(h.getVersion(), h.getDate(), h.getDescription());
  std::string prof = h.getProfile();
  o.setProfile(prof);
  o.setLevel(h.getLevel());
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) o.addAvatar(h.getAvatarAt(i));
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    ht::Perception q(p.getId(), p.getAvatarId(), p.getDescription(), p.getPerceptionModality());
    q.setUnitExponent(p.getUnitExponentOrDefault());
    q.setPerceptionUnitExponent(p.getPerceptionUnitExponentOrDefault());
    for (int k = 0; k < (int)p.getEffectLibrarySize(); k++) {
      auto e = libEffect(p.getBasisEffectAt(k));
      q.addBasisEffect(e);
    }
    for (int d = 0; d < (int)p.getReferenceDevicesSize(); d++) {
      auto rd = p.getReferenceDeviceAt(d);
      if (!rd.getBodyPartMask()) rd.setBodyPartMask(0);
      q.addReferenceDevice(rd);
    }
    for (int c = 0; c < (int)p.getChannelsSize(); c++) {
      auto &ch = p.getChannelAt(c);
      ht::Channel n(ch.getId(), ch.getDescription(), ch.getGain(), ch.getMixingWeight(), ch.getActuatorResolution() ? 0U : ch.getBodyPartMask());
      if (ch.getReferenceDeviceId()) n.setReferenceDeviceId(*ch.getReferenceDeviceId());
      if (ch.getActuatorResolution()) {
        n.setActuatorResolution(*ch.getActuatorResolution());
        n.setBodyPartTarget(ch.getBodyPartTarget().value_or(std::vector<ht::BodyPartTarget>{}));
        n.setActuatorTarget(ch.getActuatorTarget().value_or(std::vector<ht::Vector>{}));
      }
      if (ch.getFrequencySampling()) {
        n.setFrequencySampling(*ch.getFrequencySampling());
        n.setSampleCount(ch.getSampleCount().value_or(0));
      }
      if (ch.getDirection()) n.setDirection(*ch.getDirection());
      for (int v = 0; v < (int)ch.getVerticesSize(); v++) {
        int x = ch.getVertexAt(v);
        n.addVertex(x);
      }
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        ht::Band m(bd.getBandType(), bd.getLowerFrequencyLimit(), bd.getUpperFrequencyLimit());
        if (bd.getBandType() == ht::BandType::Curve) m.setCurveType(bd.getCurveTypeOrDefault());
        if (bd.getBandType() == ht::BandType::WaveletWave) m.setBlockLength(bd.getBlockLengthOrDefault());
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto ef = bd.getEffectAt(e);
          dropBandEffect(ef, bd.getBandType());
          m.addEffect(ef);
        }
        n.addBand(m);
      }
      q.addChannel(n);
    }
    o.addPerception(q);
  }
  return dumpHaptics(o);
}
static void nestLibrary(Rng &r, Gen &g, ht::Effect &e, int depth) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, 2);
    ht::Effect t((int)r.range(0, (1 << 25) - 1), k == 0 ? ht::EffectType::Basis : k == 1 ? ht::EffectType::Reference : ht::EffectType::Composite);
    if (k == 2 && depth <= 0) t.setEffectType(ht::EffectType::Basis);
    t.setId((int)r.range(0, 65535));
    if (t.getEffectType() == ht::EffectType::Basis) g.fillBasis(t, ht::BandType::VectorialWave);
    if (t.getEffectType() == ht::EffectType::Composite) nestLibrary(r, g, t, depth - 1);
    e.addTimelineEffect(t);
  }
}
static void nestBand(Rng &r, Gen &g, ht::Effect &e, ht::BandType bt, int depth) {
  int n = (int)r.range(0, 3);
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, 2);
    ht::Effect t((int)r.range(0, (1 << 25) - 1), k == 0 ? ht::EffectType::Basis : k == 1 ? ht::EffectType::Reference : ht::EffectType::Composite);
    if (k == 2 && depth <= 0) t.setEffectType(ht::EffectType::Basis);
    if (t.getEffectType() == ht::EffectType::Reference) t.setId((int)r.range(0, 65535));
    if (t.getEffectType() == ht::EffectType::Basis) g.fillBasis(t, bt);
    if (t.getEffectType() == ht::EffectType::Composite) nestBand(r, g, t, bt, depth - 1);
    e.addTimelineEffect(t);
  }
}
static ht::Haptics binaryDoc(Rng &r) {
  StreamOpt so;
  GenOpt o = streamGenOpt(so);
  o.posMax = r.chance(0.5) ? 5000 : (1 << 25) - 1;
  o.relPosMax = r.chance(0.5) ? 300 : 65535;
  o.minPerceptions = r.chance(0.9) ? 1 : 0;
  o.bodyTargets = true;
  o.maxTimescale = 1000;
  Gen g(r, o);
  auto h = g.haptics();
  h.setTimescale(r.chance(0.5) ? std::optional<unsigned>(1000U) : std::nullopt);
  if (r.chance(0.1)) spice(h, r, g);
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    if (r.chance(0.4)) {
      ht::Effect e((int)r.range(0, (1 << 25) - 1), ht::EffectType::Composite);
      e.setId((int)r.range(0, 65535));
      nestLibrary(r, g, e, 2);
      p.addBasisEffect(e);
    }
    for (int c = 0; c < (int)p.getChannelsSize(); c++) {
      auto &ch = p.getChannelAt(c);
      if (r.chance(0.2)) {
        int v = -(int)r.range(1, 2147483647);
        ch.addVertex(v);
      }
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (r.chance(0.3)) {
          ht::Effect e((int)r.range(0, o.posMax), ht::EffectType::Composite);
          nestBand(r, g, e, bd.getBandType(), 2);
          bool dup = false;
          for (int k = 0; k < (int)bd.getEffectsSize(); k++) dup = dup || bd.getEffectAt(k).getPosition() == e.getPosition();
          if (!dup) bd.addEffect(e);
        }
        if (r.chance(0.1)) // simultaneous effects keep the order they were given
          for (int k = 0; k < (int)bd.getEffectsSize(); k++) bd.getEffectAt(k).setPosition(17);
      }
      if (ch.getBandsSize() < 200 && r.chance(0.4)) {
        static const std::vector<int> ups = {125, 250, 500, 1000, 2000, 4000, 8000};
        int up = r.pick(ups), samples = 1 << r.range(4, 13);
        long long ticks = (long long)samples * 1000 / up;
        if (ticks * up != (long long)samples * 1000) ticks = 0;
        if (ticks > 0) {
          ht::Band w(ht::BandType::WaveletWave, (int)ticks, 0, up);
          int n = (int)r.range(0, 6);
          for (int k = 0; k < n; k++) {
            ht::Effect e((int)(k * ticks), ht::EffectType::Basis);
            std::vector<unsigned char> v;
            int len = r.chance(0.05) ? (int)r.range(0, 65535) : (int)r.range(0, 40);
            for (int q = 0; q < len; q++) v.push_back((unsigned char)r.range(0, 255));
            e.setWaveletBitstream(v);
            w.addEffect(e);
          }
          R.stat("wavelet_blocks", n);
          ch.addBand(w);
        }
      }
    }
  }
  return h;
}
static Tol binTol() {
  auto t = streamTol(Part::All);
  return [t](const std::string &p) { return p.find("s[]") == 0 || p == "#syncs" ? 0.0 : t(p); };
}
static void binary(Rng &r, long) {
  auto h = binaryDoc(r);
  auto before = dumpHaptics(h);
  auto want = expectedBinary(h);
  R.identity(hashDump(before), h.getPerceptionsSize() > 0);
  R.stat("fields_compared", (double)want.size());
  R.sample(showDump(want, 900));
  std::string f = R.tmp + "/a.bin", f2 = R.tmp + "/b.bin";
  bool ok = IOBinary::writeFile(h, f);
  VCHECK(ok, "write-failed", "");
  compareDumps(before, dumpHaptics(h), [](const std::string &) { return 0.0; }, "write-modifies-input");
  ht::Haptics out;
  ok = IOBinary::loadFile(f, out);
  VCHECK(ok, "read-failed", "");
  auto got = dumpHaptics(out);
  if (compareDumps(want, got, binTol(), "binary")) return;
  auto bytes = readAll(f);
  R.stat("bytes", (double)bytes.size());
  {
    auto copy = bytes;
    IOMemoryBuffer mb(&copy[0], copy.size());
    ht::Haptics m;
    VCHECK(IOBinary::loadMemory(mb, m), "memory-read-failed", "");
    compareDumps(got, dumpHaptics(m), [](const std::string &) { return 0.0; }, "memory-differs");
  }
  VCHECK(IOBinary::writeFile(out, f2), "rewrite-failed", "");
  VCHECK(readAll(f2) == bytes, "rewrite-differs", "sizes " << bytes.size() << " " << readAll(f2).size());
}
// every field of a binary file where the format puts it, in the codes the format has for it
static void layout(Rng &r, long) {
  auto h = binaryDoc(r);
  auto want = published(expectedBinary(h), false);
  want.erase("timescale"); // not part of the file
  R.identity(hashDump(want), h.getPerceptionsSize() > 0);
  R.sample(showDump(want, 900));
  std::string f = R.tmp + "/a.bin";
  VCHECK(IOBinary::writeFile(h, f), "write-failed", "");
  auto s = readAll(f);
  R.stat("bytes", (double)s.size());
  try {
    auto got = readBinary(s);
    R.stat("fields_compared", (double)want.size());
    compareDumps(want, got, binTol(), "layout");
  } catch (const HmpgError &e) {
    R.violation("layout:" + e.key, e.detail);
  }
}
// damaged binary files
static void binhostile(Rng &r, long) {
  auto h = binaryDoc(r);
  std::string f = R.tmp + "/a.bin";
  IOBinary::writeFile(h, f);
  auto bytes = readAll(f);
  if (bytes.size() > 30000) bytes.resize(30000);
  uint64_t id = hashStr(bytes);
  for (int v = 0; v < 6; v++) {
    std::string b = bytes;
    bool cut = false;
    switch (r.range(0, 6)) {
    case 0: case 1:
      b = b.substr(0, (size_t)r.range(0, (long long)b.size() - 1));
      cut = b.size() < bytes.size() && bytes.size() < 30000;
      break;
    case 2:
      for (int k = (int)r.range(1, 10); k > 0 && !b.empty(); k--) b[(size_t)r.range(0, (long long)b.size() - 1)] = (char)r.range(0, 255);
      break;
    case 3:
      for (int k = (int)r.range(1, 4); k > 0 && !b.empty(); k--) b[(size_t)r.range(0, (long long)b.size() - 1)] ^= (char)(1 << r.range(0, 7));
      break;
    case 4: {
      b.clear();
      int n = (int)r.range(1, 3000);
      bool few = r.chance(0.5);
      int a = (int)r.range(0, 255);
      for (int k = 0; k < n; k++) b += (char)(few && r.chance(0.7) ? a : r.range(0, 255));
      // an empty header leads the reader to the perceptions
      if (r.chance(0.7)) b = std::string(5, '\0') + b;
      break;
    }
    case 5: { // library effects nested without end
      b = std::string(5, '\0') + std::string(1, '\0') + std::string(1, '\1') + std::string("\1\0\0\0\0\0", 6) + std::string("\0\1", 2);
      std::vector<bool> bits;
      int n = r.chance(0.5) ? (int)r.range(1, 300) : (int)r.range(300, 60000);
      for (int k = 0; k < n; k++) {
        P::writeNBits<int, 16>(1, bits);
        P::writeNBits<int, 25>(0, bits);
        P::writeNBits<int, 2>(2, bits);
        P::writeNBits<int, 16>(0, bits);
        P::writeNBits<int, 16>(1, bits);
      }
      std::ostringstream os;
      P::fillBitset(bits);
      P::writeBitset(bits, os);
      b += os.str();
      R.stat("deep_libraries");
      break;
    }
    default: { // part of the file repeated
      if (b.size() > 4) {
        size_t a = (size_t)r.range(0, (long long)b.size() - 2), n = (size_t)r.range(1, 60);
        b.insert(a, b.substr(a, n));
      }
    }
    }
    id = mix(id ^ hashStr(b));
    writeAll(f, b);
    ht::Haptics out;
    bool ok = IOBinary::loadFile(f, out);
    R.stat(ok ? "accepted" : "refused");
    if (cut) {
      R.stat("truncated");
      VCHECK(!ok, "truncated-file-accepted", "cut at " << b.size() << " of " << bytes.size());
    }
    if (!b.empty()) {
      IOMemoryBuffer mb(&b[0], b.size());
      ht::Haptics m;
      bool ok2 = IOBinary::loadMemory(mb, m);
      VCHECK(ok == ok2, "memory-verdict-differs", ok << " " << ok2);
      if (ok && ok2) compareDumps(dumpHaptics(out), dumpHaptics(m), [](const std::string &) { return 0.0; }, "memory-differs");
    }
  }
  R.identity(id, true);
  R.sample(std::to_string(bytes.size()) + " bytes " + hex(bytes, 120));
  ht::Haptics none;
  VCHECK(!IOBinary::loadFile(R.tmp + "/missing.bin", none), "missing-file-accepted", "");
}

int main(int argc, char **argv) {
  Modes m;
  m["fields"] = {fields};
  m["binary"] = {binary};
  m["layout"] = {layout};
  m["hostile"] = {binhostile};
  return workerMain(argc, argv, m);
}
