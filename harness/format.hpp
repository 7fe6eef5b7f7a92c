// The published file formats, written down apart from the code: keywords and codes, the layout of a stream's
// descriptions and effects, and the layout of a binary file.
#pragma once
#include <regex>
#include "streamgen.hpp"
#include "hmpgparse.hpp"
#include <Types/include/Avatar.h>
#include <Types/include/BandType.h>
#include <Types/include/BodyPartTarget.h>
#include <Types/include/CurveType.h>
#include <Types/include/Effect.h>
#include <Types/include/Perception.h>
#include <Types/include/ReferenceDevice.h>

namespace vf {
struct Code {
  int inMemory;
  int code;
  const char *keyword;
};
inline const std::vector<Code> &codesAvatarType() {
  static const std::vector<Code> t = {
      {(int)ht::AvatarType::Custom, 0, "Custom"},
      {(int)ht::AvatarType::Vibration, 1, "Vibration"},
      {(int)ht::AvatarType::Pressure, 2, "Pressure"},
      {(int)ht::AvatarType::Temperature, 3, "Temperature"},
  };
  return t;
}
inline const std::vector<Code> &codesBandType() {
  static const std::vector<Code> t = {
      {(int)ht::BandType::Transient, 0, "Transient"},
      {(int)ht::BandType::Curve, 1, "Curve"},
      {(int)ht::BandType::VectorialWave, 2, "VectorialWave"},
      {(int)ht::BandType::WaveletWave, 3, "WaveletWave"},
  };
  return t;
}
inline const std::vector<Code> &codesBodyPartTarget() {
  static const std::vector<Code> t = {
      {(int)ht::BodyPartTarget::Unknown, 0, "Unknown"},
      {(int)ht::BodyPartTarget::All, 1, "All"},
      {(int)ht::BodyPartTarget::Top, 10, "Top"},
      {(int)ht::BodyPartTarget::Down, 11, "Down"},
      {(int)ht::BodyPartTarget::Right, 12, "Right"},
      {(int)ht::BodyPartTarget::Left, 13, "Left"},
      {(int)ht::BodyPartTarget::Front, 14, "Front"},
      {(int)ht::BodyPartTarget::Back, 15, "Back"},
      {(int)ht::BodyPartTarget::Arm, 20, "Arm"},
      {(int)ht::BodyPartTarget::Head, 21, "Head"},
      {(int)ht::BodyPartTarget::Chest, 22, "Chest"},
      {(int)ht::BodyPartTarget::Waist, 23, "Waist"},
      {(int)ht::BodyPartTarget::Leg, 24, "Leg"},
      {(int)ht::BodyPartTarget::UpperArm, 30, "Upper-arm"},
      {(int)ht::BodyPartTarget::Forearm, 31, "Forearm"},
      {(int)ht::BodyPartTarget::Hand, 32, "Hand"},
      {(int)ht::BodyPartTarget::Crane, 33, "Crane"},
      {(int)ht::BodyPartTarget::Neck, 34, "Neck"},
      {(int)ht::BodyPartTarget::Thigh, 35, "Thigh"},
      {(int)ht::BodyPartTarget::Calf, 36, "Calf"},
      {(int)ht::BodyPartTarget::Foot, 37, "Foot"},
      {(int)ht::BodyPartTarget::Palm, 40, "Palm"},
      {(int)ht::BodyPartTarget::Finger, 41, "Finger"},
      {(int)ht::BodyPartTarget::Sole, 42, "Sole"},
      {(int)ht::BodyPartTarget::Toe, 43, "Toe"},
      {(int)ht::BodyPartTarget::Thumb, 50, "Thumb"},
      {(int)ht::BodyPartTarget::Index, 51, "Index"},
      {(int)ht::BodyPartTarget::Middle, 52, "Middle"},
      {(int)ht::BodyPartTarget::Ring, 53, "Ring"},
      {(int)ht::BodyPartTarget::Pinky, 54, "Pinky"},
      {(int)ht::BodyPartTarget::Hallux, 55, "Hallux"},
      {(int)ht::BodyPartTarget::IndexToe, 56, "Index-toe"},
      {(int)ht::BodyPartTarget::MiddleToe, 57, "Middle-toe"},
      {(int)ht::BodyPartTarget::RingToe, 58, "Ring-toe"},
      {(int)ht::BodyPartTarget::PinkyToe, 59, "Pinky-toe"},
      {(int)ht::BodyPartTarget::FirstPhalanx, 60, "First Phalanx"},
      {(int)ht::BodyPartTarget::SecondPhalanx, 61, "Second Phalanx"},
      {(int)ht::BodyPartTarget::ThirdPhalanx, 62, "Third Phalanx"},
      {(int)ht::BodyPartTarget::Minus, 254, "Minus"},
      {(int)ht::BodyPartTarget::Plus, 255, "Plus"},
  };
  return t;
}
inline const std::vector<Code> &codesCurveType() {
  static const std::vector<Code> t = {
      {(int)ht::CurveType::Unknown, 0, "Unknown"},
      {(int)ht::CurveType::Cubic, 1, "Cubic"},
      {(int)ht::CurveType::Linear, 2, "Linear"},
      {(int)ht::CurveType::Akima, 3, "Akima"},
      {(int)ht::CurveType::Bezier, 4, "Bezier"},
      {(int)ht::CurveType::Bspline, 5, "Bspline"},
  };
  return t;
}
inline const std::vector<Code> &codesBaseSignal() {
  static const std::vector<Code> t = {
      {(int)ht::BaseSignal::Sine, 0, "Sine"},
      {(int)ht::BaseSignal::Square, 1, "Square"},
      {(int)ht::BaseSignal::Triangle, 2, "Triangle"},
      {(int)ht::BaseSignal::SawToothUp, 3, "SawToothUp"},
      {(int)ht::BaseSignal::SawToothDown, 4, "SawToothDown"},
  };
  return t;
}
inline const std::vector<Code> &codesEffectType() {
  static const std::vector<Code> t = {
      {(int)ht::EffectType::Basis, 0, "Basis"},
      {(int)ht::EffectType::Reference, 1, "Reference"},
      {(int)ht::EffectType::Composite, 2, "Composite"},
  };
  return t;
}
inline const std::vector<Code> &codesPerceptionModality() {
  static const std::vector<Code> t = {
      {(int)ht::PerceptionModality::Other, 0, "Other"},
      {(int)ht::PerceptionModality::Pressure, 1, "Pressure"},
      {(int)ht::PerceptionModality::Acceleration, 2, "Acceleration"},
      {(int)ht::PerceptionModality::Velocity, 3, "Velocity"},
      {(int)ht::PerceptionModality::Position, 4, "Position"},
      {(int)ht::PerceptionModality::Temperature, 5, "Temperature"},
      {(int)ht::PerceptionModality::Vibrotactile, 6, "Vibrotactile"},
      {(int)ht::PerceptionModality::Water, 7, "Water"},
      {(int)ht::PerceptionModality::Wind, 8, "Wind"},
      {(int)ht::PerceptionModality::Force, 9, "Force"},
      {(int)ht::PerceptionModality::VibrotactileTexture, 10, "Vibrotactile Texture"},
      {(int)ht::PerceptionModality::Stiffness, 11, "Stiffness"},
      {(int)ht::PerceptionModality::Friction, 12, "Friction"},
      {(int)ht::PerceptionModality::Electrotactile, 13, "Electrotactile"},
  };
  return t;
}
inline const std::vector<Code> &codesActuatorType() {
  static const std::vector<Code> t = {
      {(int)ht::ActuatorType::Unknown, 0, "Unknown"},
      {(int)ht::ActuatorType::LRA, 1, "LRA"},
      {(int)ht::ActuatorType::VCA, 2, "VCA"},
      {(int)ht::ActuatorType::ERM, 3, "ERM"},
      {(int)ht::ActuatorType::Piezo, 4, "Piezo"},
  };
  return t;
}
inline const std::vector<std::pair<const char *, int>> &codesSemantic() {
  static const std::vector<std::pair<const char *, int>> t = {
      {"UX/Undefined", 0},
      {"UX/Click", 1},
      {"UX/DoubleClick", 2},
      {"UX/Success", 3},
      {"UX/Error", 4},
      {"UX/Alarm", 5},
      {"UX/Confirmatioon", 6},
      {"UX/Wrong", 7},
      {"UX/Ring", 8},
      {"UX/Message", 9},
      {"Avatar/Undefined", 256},
      {"Avatar/Jumping", 257},
      {"Avatar/Fall", 258},
      {"Avatar/Crawl", 259},
      {"Avatar/Swim", 260},
      {"Avatar/Collision", 261},
      {"Avatar/Grab", 262},
      {"Avatar/Touch", 263},
      {"Avatar/Swip", 264},
      {"Avatar/Footstep", 265},
      {"SpecialFX/Undefined", 512},
      {"SpecialFX/Washout", 513},
      {"SpecialFX/Noise", 514},
      {"WeaponCombat/Undefined", 768},
      {"WeaponCombat/Blade", 769},
      {"WeaponCombat/Hit", 770},
      {"WeaponCombat/HandThrown", 771},
      {"WeaponCombat/ElasticPropulsion", 772},
      {"WeaponCombat/Pneumatic", 773},
      {"WeaponCombat/Handgun", 774},
      {"WeaponCombat/Rifle", 775},
      {"WeaponCombat/Shotgun", 776},
      {"WeaponCombat/Gun", 777},
      {"WeaponCombat/Machinegun", 778},
      {"WeaponCombat/Taser", 779},
      {"WeaponCombat/ElectricShock", 780},
      {"WeaponCombat/Mine", 781},
      {"WeaponCombat/Missile", 782},
      {"WeaponCombat/Grenade", 783},
      {"WeaponCombat/Blast", 784},
      {"Ambient/Undefined", 1024},
      {"Ambient/Wind", 1025},
      {"Ambient/Heat", 1026},
      {"Ambient/Cold", 1027},
      {"Ambient/Rain", 1028},
      {"Ambient/Waterfall", 1029},
      {"Ambient/WaterDrop", 1030},
      {"Ambient/ElectricBuzz", 1031},
      {"Ambient/Ignition", 1032},
      {"Ambient/Cracks", 1033},
      {"Ambient/Earthquack", 1034},
      {"Ambient/Sparks", 1035},
      {"Ambient/Thunderbolt", 1036},
      {"Texture/Undefined", 1280},
      {"Texture/Rock", 1281},
      {"Texture/Gravel", 1282},
      {"Texture/Sand", 1283},
      {"Texture/Wood", 1284},
      {"Texture/Metal", 1285},
      {"Texture/Plastic", 1286},
      {"Vehicle/Undefined", 1536},
      {"Vehicle/Engine", 1537},
      {"Vehicle/Doors", 1538},
      {"Vehicle/Brake", 1539},
      {"Vehicle/MechanicalContraption", 1540},
      {"Vehicle/Drift", 1541},
      {"Vehicle/RoadFriction", 1542},
      {"Vehicle/RoadBump", 1543},
      {"Vehicle/Tires", 1544},
      {"Vehicle/AirFriction", 1545},
      {"Music/Undefined", 1792},
      {"Music/HardMaterial", 1793},
      {"Music/BouncyMaterial", 1794},
      {"Music/Pucking", 1795},
      {"Music/Bowing", 1796},
      {"Music/Striking", 1797},
      {"Music/BrassInstrument", 1798},
      {"Music/WoodWindInstrument", 1799},
  };
  return t;
}
// the enumeration a field of a dump belongs to, by its path; null: not an enumeration
inline const std::vector<Code> *codesOf(const std::string &path) {
  auto p = stripIdx(path);
  auto ends = [&](const char *s) {
    size_t n = strlen(s);
    return p.size() >= n && p.compare(p.size() - n, n, s) == 0;
  };
  if (p == "a[].type") return &codesAvatarType();
  if (ends(".rd[].type")) return &codesActuatorType();
  if (ends(".b[].type")) return &codesBandType();
  if (ends(".e[].type") || ends(".tl[].type") || ends(".lib[].type")) return &codesEffectType();
  if (ends(".modality")) return &codesPerceptionModality();
  if (ends(".curve")) return &codesCurveType();
  if (ends(".signal")) return &codesBaseSignal();
  if (ends(".bodytarget[]") && !ends("#bodytarget[]")) return &codesBodyPartTarget();
  return nullptr;
}
// replaces the enumerations held in memory by the code (or the keyword) the format has for them
inline Dump published(const Dump &d, bool keywords) {
  Dump o = d;
  for (auto &kv : o) {
    if (!kv.second.num) continue;
    auto *t = codesOf(kv.first);
    if (!t) continue;
    for (auto &c : *t)
      if (c.inMemory == (int)kv.second.d) {
        kv.second = keywords ? Val::t(c.keyword) : Val::n(c.code);
        break;
      }
  }
  return o;
}
inline std::string semanticOf(int code) {
  for (auto &s : codesSemantic())
    if (s.second == code) return s.first;
  return "no keyword for " + std::to_string(code);
}
inline double realOf(BitIn &in, int bits, double lo, double hi) {
  double steps = std::pow(2.0, bits) - 1;
  return lo + (hi - lo) * ((double)in.u(bits) / steps);
}
inline double amplitudeOf(BitIn &in) { return realOf(in, 8, -1, 1); }
inline double phaseOf(BitIn &in) { return realOf(in, 16, 0, 6.28318); }
inline void vectorOf(BitIn &in, Dump &d, const std::string &p) {
  d[p + ".X"] = Val::n((double)in.i(8));
  d[p + ".Y"] = Val::n((double)in.i(8));
  d[p + ".Z"] = Val::n((double)in.i(8));
}
inline void put(Dump &d, const std::string &p, double v) { d[p] = Val::n(v); }
// the mask announces the fields first to last in a stream, last to first in a binary file
inline void refDevOf(BitIn &in, Dump &d, const std::string &p, bool firstBitFirst) {
  put(d, p + ".id", (double)in.u(8));
  d[p + ".name"] = Val::t(in.str());
  put(d, p + ".bodymask", (double)in.u(32));
  auto m = in.u(12);
  static const char *names[] = {".maxfreq", ".minfreq",    ".resfreq", ".maxamp", ".impedance", ".maxvolt",
                                ".maxcurrent", ".maxdisp", ".weight",  ".size",   ".custom"};
  for (int i = 0; i < 11; i++)
    if ((m >> (firstBitFirst ? 11 - i : i)) & 1) put(d, p + names[i], i == 10 ? realOf(in, 32, -10000, 10000) : realOf(in, 32, 0, 10000));
  if ((m >> (firstBitFirst ? 0 : 11)) & 1) put(d, p + ".type", (double)in.u(4));
}
inline void avatarOf(BitIn &in, Dump &d, const std::string &p) {
  put(d, p + ".id", (double)in.u(8));
  put(d, p + ".lod", (double)in.u(8));
  auto t = in.u(8);
  put(d, p + ".type", (double)t);
  if (t == 0) d[p + ".mesh"] = Val::t(in.str());
}
// what follows a channel's mixing weight
inline int channelTailOf(BitIn &in, Dump &d, const std::string &p) {
  auto m = in.u(8);
  put(d, p + ".bodymask", 0);
  if (m & 1)
    put(d, p + ".bodymask", (double)in.u(32));
  else if (m & 2) {
    vectorOf(in, d, p + ".resolution");
    auto n = in.u(8);
    put(d, p + ".#bodytarget", (double)n);
    for (uint64_t i = 0; i < n; i++) put(d, p + ".bodytarget[" + std::to_string(i) + "]", (double)in.u(8));
    n = in.u(8);
    put(d, p + ".#actuatortarget", (double)n);
    for (uint64_t i = 0; i < n; i++) vectorOf(in, d, p + ".actuatortarget[" + std::to_string(i) + "]");
  }
  if (auto fs = in.u(32)) {
    put(d, p + ".fs", (double)fs);
    put(d, p + ".samplecount", (double)in.u(32));
  }
  if (m & 4) vectorOf(in, d, p + ".direction");
  auto v = in.u(16);
  put(d, p + ".#vertices", (double)v);
  for (uint64_t i = 0; i < v; i++) put(d, p + ".vertex[" + std::to_string(i) + "]", (double)in.i(32));
  return (int)in.u(8);
}
inline void libraryEffectOf(BitIn &in, Dump &d, const std::string &p, bool semantics) {
  put(d, p + ".id", (double)in.u(16));
  int type = -1;
  if (semantics) { // a stream: type, semantic, position
    type = (int)in.u(2);
    if (in.u(1)) d[p + ".semantic"] = Val::t(semanticOf((int)in.u(12)));
    put(d, p + ".position", (double)in.u(25));
  } else { // a binary file: position, type
    put(d, p + ".position", (double)in.u(25));
    type = (int)in.u(2);
  }
  put(d, p + ".type", type);
  if (type == 0) {
    put(d, p + ".phase", phaseOf(in));
    put(d, p + ".signal", (double)in.u(4));
  }
  auto n = in.u(16);
  put(d, p + ".#keyframes", (double)n);
  for (uint64_t k = 0; k < n; k++) {
    std::string q = p + ".kf[" + std::to_string(k) + "]";
    auto m = in.u(3);
    if (m & 1) put(d, q + ".pos", (double)in.u(16));
    if (m & 2) put(d, q + ".amp", amplitudeOf(in));
    if (m & 4) put(d, q + ".freq", (double)in.u(16));
  }
  n = in.u(16);
  put(d, p + ".#timeline", (double)n);
  for (uint64_t k = 0; k < n; k++) libraryEffectOf(in, d, p + ".tl[" + std::to_string(k) + "]", semantics);
  d[p + ".bitstream"] = Val::t("");
}
inline void keyframeOf(BitIn &in, Dump &d, const std::string &q, int bandType, bool shortMask, int64_t shift = 0) {
  if (bandType == 2) {
    auto m = in.u(shortMask ? 2 : 3);
    if (m & 1) put(d, q + ".amp", amplitudeOf(in));
    put(d, q + ".pos", (double)((int64_t)in.u(16) + shift));
    if (m & 2) put(d, q + ".freq", (double)in.u(16));
  } else {
    put(d, q + ".amp", amplitudeOf(in));
    put(d, q + ".pos", (double)((int64_t)in.u(16) + shift));
    if (bandType == 0) put(d, q + ".freq", (double)in.u(16));
  }
}
inline std::string bytesOf(BitIn &in) {
  auto n = in.u(16);
  std::string s;
  for (uint64_t i = 0; i < n; i++) s += (char)in.u(8);
  return hex(s, 100000);
}

// ---- a stream -------------------------------------------------------------------------------
struct RefStream {
  Dump d;
  std::map<int, int> perception;                                // id -> index
  std::map<std::pair<int, int>, int> channel;                   // perception index, id -> index
  std::map<std::array<int, 3>, std::pair<std::string, int>> band; // perception index, channel index, id -> path, type
  std::map<std::string, int> count;                             // path of a counter -> items seen
  std::map<std::string, std::map<int, std::string>> known;      // band path -> effect id -> effect path
  int bands = 0, packets = 0;
};
inline void refDescription(RefStream &r, const std::string &s, size_t at, size_t end) {
  BitIn u(s, at, end);
  auto &d = r.d;
  while (u.pos < end) {
    int type = (int)u.u(6);
    size_t len = u.u(17);
    u.u(1);
    if (u.pos + len * 8 > end) throw HmpgError{"packet-past-unit", ""};
    BitIn in(s, u.pos, u.pos + len * 8);
    u.pos += len * 8;
    r.packets++;
    if (type == 11) {
      in.u(32);
      put(d, "timescale", (double)in.u(32));
      in.u(24);
      in.u(24);
      in.u(1);
    } else if (type == 1) {
      d["version"] = Val::t(in.str());
      d["profile"] = Val::t(in.str());
      put(d, "level", (double)in.u(8));
      d["date"] = Val::t(in.str());
      d["description"] = Val::t(in.str());
      put(d, "#perceptions", (double)in.u(8));
      auto n = in.u(8);
      put(d, "#avatars", (double)n);
      for (uint64_t i = 0; i < n; i++) avatarOf(in, d, "a[" + std::to_string(i) + "]");
    } else if (type == 2) {
      int id = (int)in.u(8), idx = (int)r.perception.size();
      r.perception[id] = idx;
      std::string p = "p[" + std::to_string(idx) + "]";
      put(d, p + ".id", id);
      if (auto pr = in.u(8)) put(d, p + ".priority", (double)pr);
      d[p + ".description"] = Val::t(in.str());
      put(d, p + ".modality", (double)in.u(8));
      put(d, p + ".avatar", (double)in.u(8));
      put(d, p + ".#library", (double)in.u(16));
      if (in.u(1)) d[p + ".scheme"] = Val::t(in.str());
      put(d, p + ".unitexp", (double)in.i(8));
      put(d, p + ".punitexp", (double)in.i(8));
      auto n = in.u(8);
      put(d, p + ".#refdevs", (double)n);
      for (uint64_t i = 0; i < n; i++) refDevOf(in, d, p + ".rd[" + std::to_string(i) + "]", true);
      put(d, p + ".#channels", (double)in.u(16));
    } else if (type == 6) {
      int pi = r.perception.at((int)in.u(8));
      std::string p = "p[" + std::to_string(pi) + "].lib";
      auto n = in.u(16);
      for (uint64_t i = 0; i < n; i++) libraryEffectOf(in, d, p + "[" + std::to_string(r.count[p]++) + "]", true);
    } else if (type == 3) {
      int id = (int)in.u(16);
      int pi = r.perception.at((int)in.u(8));
      std::string pp = "p[" + std::to_string(pi) + "]";
      int ci = r.count[pp + ".c"]++;
      r.channel[{pi, id}] = ci;
      std::string p = pp + ".c[" + std::to_string(ci) + "]";
      put(d, p + ".id", id);
      if (auto pr = in.u(8)) put(d, p + ".priority", (double)pr);
      d[p + ".description"] = Val::t(in.str());
      auto dev = in.u(8);
      if (dev != 255) put(d, p + ".refdev", (double)dev);
      put(d, p + ".gain", realOf(in, 32, -10000, 10000));
      put(d, p + ".mixing", realOf(in, 32, 0, 10000));
      put(d, p + ".#bands", channelTailOf(in, d, p));
    } else if (type == 4) {
      int id = (int)in.u(8);
      int pi = r.perception.at((int)in.u(8));
      int ci = r.channel.at({pi, (int)in.u(16)});
      std::string pc = "p[" + std::to_string(pi) + "].c[" + std::to_string(ci) + "]";
      std::string p = pc + ".b[" + std::to_string(r.count[pc + ".b"]++) + "]";
      if (auto pr = in.u(8)) put(d, p + ".priority", (double)pr);
      int t = (int)in.u(3);
      put(d, p + ".type", t);
      if (t == 1) put(d, p + ".curve", (double)in.u(4));
      if (t == 3) put(d, p + ".blocklength", (double)in.u(8));
      put(d, p + ".low", (double)in.u(16));
      put(d, p + ".high", (double)in.u(16));
      put(d, p + ".#effects", 0);
      in.u(16);
      r.band[{pi, ci, id}] = {p, t};
      r.bands++;
    } else
      throw HmpgError{"packet-type", "description " + std::to_string(type)};
    in.done("description");
  }
}
inline void refData(RefStream &r, BitIn in, int64_t time) {
  auto &d = r.d;
  in.u(1);
  int pi = r.perception.at((int)in.u(8));
  int ci = r.channel.at({pi, (int)in.u(16)});
  auto b = r.band.at({pi, ci, (int)in.u(8)});
  r.packets++;
  auto n = in.u(16);
  for (uint64_t k = 0; k < n; k++) {
    int id = (int)in.u(16), type = (int)in.u(2);
    auto &cnt = d[b.first + ".#effects"];
    auto fresh = [&]() {
      std::string p = b.first + ".e[" + std::to_string((int)cnt.d) + "]";
      cnt.d += 1;
      put(d, p + ".type", type);
      put(d, p + ".#keyframes", 0);
      put(d, p + ".#timeline", 0);
      d[p + ".bitstream"] = Val::t("");
      return p;
    };
    if (b.second == 3) {
      auto p = fresh();
      if (in.u(1)) d[p + ".semantic"] = Val::t(semanticOf((int)in.u(12)));
      d[p + ".bitstream"] = Val::t(bytesOf(in));
      continue;
    }
    int64_t pos = time + in.i(25);
    if (type == 1) {
      auto p = fresh();
      put(d, p + ".id", id);
      put(d, p + ".position", (double)pos);
      continue;
    }
    std::string p;
    auto &kn = r.known[b.first];
    bool cont = kn.count(id) != 0;
    if (cont)
      p = kn[id];
    else {
      p = kn[id] = fresh();
      put(d, p + ".position", (double)pos);
    }
    if (in.u(1)) d[p + ".semantic"] = Val::t(semanticOf((int)in.u(12)));
    auto kf = in.u(16);
    if (b.second == 2) {
      put(d, p + ".phase", phaseOf(in));
      put(d, p + ".signal", (double)in.u(4));
    }
    auto &have = d[p + ".#keyframes"];
    for (uint64_t q = 0; q < kf; q++) {
      keyframeOf(in, d, p + ".kf[" + std::to_string((int)have.d) + "]", b.second, true, pos - (int64_t)d[p + ".position"].d);
      have.d += 1;
    }
  }
  in.done("data");
}
inline RefStream readStream(const std::string &s) {
  RefStream r;
  put(r.d, "#syncs", 0);
  size_t at = 0, end = s.size() * 8;
  int64_t clock = 0;
  bool first = true;
  while (at < end) {
    BitIn h(s, at, end);
    int type = (int)h.u(6);
    h.u(2);
    h.u(4);
    auto dur = (int64_t)h.u(24);
    size_t len = h.u(32);
    h.u(4);
    size_t ue = h.pos + len * 8;
    if (ue > end) throw HmpgError{"unit-past-end", ""};
    if (type == U_INIT) {
      if (first) refDescription(r, s, h.pos, ue);
      first = false;
    } else {
      BitIn p(s, h.pos, ue);
      while (p.pos < ue) {
        int t = (int)p.u(6);
        size_t pl = p.u(17);
        p.u(1);
        if (t != 5) throw HmpgError{"packet-type", "timed " + std::to_string(t)};
        if (p.pos + pl * 8 > ue) throw HmpgError{"packet-past-unit", ""};
        refData(r, BitIn(s, p.pos, p.pos + pl * 8), clock);
        p.pos += pl * 8;
      }
    }
    clock += dur;
    at = ue;
  }
  return r;
}

// ---- a binary file --------------------------------------------------------------------------
inline void binaryEffectOf(BitIn &in, Dump &d, const std::string &p, int bandType, int64_t blockPosition, bool top) {
  int type = (int)in.u(2);
  put(d, p + ".type", type);
  put(d, p + ".id", -1);
  put(d, p + ".#keyframes", 0);
  put(d, p + ".#timeline", 0);
  d[p + ".bitstream"] = Val::t("");
  if (top && type == 0 && bandType == 3)
    put(d, p + ".position", (double)blockPosition);
  else
    put(d, p + ".position", (double)in.u(25));
  if (type == 1) {
    put(d, p + ".id", (double)in.u(16));
  } else if (type == 2) {
    auto n = in.u(16);
    put(d, p + ".#timeline", (double)n);
    for (uint64_t i = 0; i < n; i++) binaryEffectOf(in, d, p + ".tl[" + std::to_string(i) + "]", bandType, 0, false);
  } else if (type == 0) {
    if (bandType == 3) {
      d[p + ".bitstream"] = Val::t(bytesOf(in));
      return;
    }
    if (bandType == 2) {
      put(d, p + ".phase", phaseOf(in));
      put(d, p + ".signal", (double)in.u(4));
    }
    auto n = in.u(16);
    put(d, p + ".#keyframes", (double)n);
    for (uint64_t k = 0; k < n; k++) keyframeOf(in, d, p + ".kf[" + std::to_string(k) + "]", bandType, false);
  } else
    throw HmpgError{"effect-type", std::to_string(type)};
}
inline Dump readBinary(const std::string &s) {
  Dump d;
  BitIn in(s, 0, s.size() * 8);
  d["version"] = Val::t(in.str());
  d["profile"] = Val::t(in.str());
  put(d, "level", (double)in.u(8));
  d["date"] = Val::t(in.str());
  d["description"] = Val::t(in.str());
  put(d, "#syncs", 0);
  auto n = in.u(8);
  put(d, "#avatars", (double)n);
  for (uint64_t i = 0; i < n; i++) avatarOf(in, d, "a[" + std::to_string(i) + "]");
  auto np = in.u(8);
  put(d, "#perceptions", (double)np);
  for (uint64_t i = 0; i < np; i++) {
    std::string p = "p[" + std::to_string(i) + "]";
    put(d, p + ".id", (double)in.u(8));
    put(d, p + ".modality", (double)in.u(8));
    d[p + ".description"] = Val::t(in.str());
    put(d, p + ".avatar", (double)in.u(8));
    put(d, p + ".unitexp", (double)in.i(8));
    put(d, p + ".punitexp", (double)in.i(8));
    n = in.u(16);
    put(d, p + ".#library", (double)n);
    for (uint64_t k = 0; k < n; k++) libraryEffectOf(in, d, p + ".lib[" + std::to_string(k) + "]", false);
    n = in.u(8);
    put(d, p + ".#refdevs", (double)n);
    for (uint64_t k = 0; k < n; k++) refDevOf(in, d, p + ".rd[" + std::to_string(k) + "]", false);
    n = in.u(16);
    put(d, p + ".#channels", (double)n);
    for (uint64_t k = 0; k < n; k++) {
      std::string q = p + ".c[" + std::to_string(k) + "]";
      put(d, q + ".id", (double)in.u(16));
      d[q + ".description"] = Val::t(in.str());
      auto dev = in.u(8);
      if (dev != 255) put(d, q + ".refdev", (double)dev);
      put(d, q + ".gain", realOf(in, 32, -10000, 10000));
      put(d, q + ".mixing", realOf(in, 32, 0, 10000));
      put(d, q + ".#bands", channelTailOf(in, d, q));
    }
  }
  for (uint64_t i = 0; i < np; i++) {
    std::string p = "p[" + std::to_string(i) + "]";
    int nc = (int)d[p + ".#channels"].d;
    for (int k = 0; k < nc; k++) {
      std::string q = p + ".c[" + std::to_string(k) + "]";
      int nb = (int)d[q + ".#bands"].d;
      for (int b = 0; b < nb; b++) {
        std::string w = q + ".b[" + std::to_string(b) + "]";
        int t = (int)in.u(3);
        put(d, w + ".type", t);
        double samples = 0;
        if (t == 1) put(d, w + ".curve", (double)in.u(4));
        if (t == 3) samples = std::pow(2.0, (double)in.u(8) + 4);
        put(d, w + ".low", (double)in.u(16));
        auto up = in.u(16);
        put(d, w + ".high", (double)up);
        int64_t block = 0;
        if (t == 3) { // a band's samples come at its upper limit; times are counted in thousandths
          block = (int64_t)std::floor(samples * 1000 / (double)up);
          put(d, w + ".blocklength", (double)block);
        }
        auto ne = in.u(16);
        put(d, w + ".#effects", (double)ne);
        for (uint64_t e = 0; e < ne; e++)
          binaryEffectOf(in, d, w + ".e[" + std::to_string(e) + "]", t, (int64_t)e * block, true);
      }
    }
  }
  in.done("file");
  return d;
}
} // namespace vf
