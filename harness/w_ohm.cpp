// OHM metadata files and their correspondence with experiences.
#include "model.hpp"
#include <Tools/include/OHMData.h>
using namespace vf;
using haptics::tools::OHMData;

static std::string text(Rng &r, int max) {
  int n = r.chance(0.2) ? max : (int)r.range(0, max);
  std::string s;
  bool bin = r.chance(0.2);
  for (int i = 0; i < n; i++) s += bin ? (char)r.range(0, 255) : (char)r.range(32, 126);
  if (!s.empty() && s.back() == 0) s.back() = 'x'; // texts are padded with zeros
  return s;
}
static float anyGain(Rng &r) {
  switch (r.range(0, 4)) {
  case 0: return 1.F;
  case 1: return (float)r.real(-10000, 10000);
  case 2: {
    uint32_t b = (uint32_t)r.next();
    float f;
    memcpy(&f, &b, 4);
    return std::isfinite(f) ? f : 0.5F;
  }
  default: return (float)r.real(0, 1);
  }
}
static uint32_t anyMask(Rng &r) {
  switch (r.range(0, 4)) {
  case 0: return 0;
  case 1: return 0xFFFFFFFFU;
  case 2: return 1U << r.range(0, 31);
  case 3: return (uint32_t)(0x80U << (8 * r.range(0, 3)));
  default: return (uint32_t)r.next();
  }
}
static OHMData anyOhm(Rng &r) {
  std::string header = "OHM ", desc = text(r, 32);
  short v = (short)(r.chance(0.5) ? r.range(1, 3) : r.range(-32768, 32767));
  OHMData d(header, v, desc);
  int n = (int)(r.chance(0.03) ? r.range(200, 700) : r.range(0, 5));
  static const std::vector<std::string> names = {"Pressure effect", "Acceleration effect", "Velocity effect", "Position effect", "Temperature effect", "Vibration effect", "Vibrotactile effect", "Water effect", "Wind effect", "Force effect", "Kinesthetic effect", "Texture effect", "Vibrotactile Texture effect", "Stiffness effect", "Friction effect", "Other", "Vibrotactile", "Pressure", "Kinesthetic", "Electrotactile", "Friction", "Unknown effect", "pressure"};
  for (int i = 0; i < n; i++) {
    OHMData::HapticElementMetadata e;
    e.elementFilename = text(r, 64);
    e.elementDescription = r.chance(0.5) ? r.pick(names) : text(r, 32);
    int c = (int)(r.chance(0.02) ? r.range(256, 1000) : r.range(0, 4));
    if (n > 100) c = (int)r.range(0, 1);
    e.numHapticChannels = (short)c;
    for (int j = 0; j < c; j++) {
      OHMData::HapticChannelMetadata m;
      m.channelDescription = text(r, 32);
      m.gain = anyGain(r);
      m.bodyPartMask = static_cast<OHMData::Body>(anyMask(r));
      e.channelsMetadata.push_back(m);
    }
    d.addHapticElementMetadata(e);
  }
  return d;
}
static std::string be16(int v) { return {(char)(v >> 8), (char)v}; }
static std::string pad(const std::string &s, size_t n) { return (s.substr(0, n) + std::string(n, '\0')).substr(0, n); }
// the fixed layout of OHM files
static std::string layout(OHMData &d) {
  std::string o = "OHM " + be16((uint16_t)d.getVersion()) + be16((int)d.getHapticElementMetadataSize()) + pad(d.getDescription(), 32);
  for (int i = 0; i < (int)d.getHapticElementMetadataSize(); i++) {
    auto &e = d.getHapticElementMetadataAt(i);
    o += pad(e.elementFilename, 64) + pad(e.elementDescription, 32) + be16((int)e.channelsMetadata.size());
    for (auto &c : e.channelsMetadata) {
      o += pad(c.channelDescription, 32);
      char g[4];
      memcpy(g, &c.gain, 4);
      o += std::string(g, 4);
      uint32_t m = static_cast<uint32_t>(c.bodyPartMask);
      o += be16((int)(m >> 16)) + be16((int)(m & 0xffff));
    }
  }
  return o;
}
static std::string describe(OHMData &d) {
  std::ostringstream o;
  o << d.getHeader() << "|" << d.getVersion() << "|" << hex(d.getDescription()) << "|" << d.getHapticElementMetadataSize();
  for (int i = 0; i < (int)d.getHapticElementMetadataSize(); i++) {
    auto &e = d.getHapticElementMetadataAt(i);
    o << "\n e" << i << " " << hex(e.elementFilename, 200) << "|" << hex(e.elementDescription, 200) << "|" << e.numHapticChannels << "|" << e.channelsMetadata.size();
    for (auto &c : e.channelsMetadata) {
      uint32_t g;
      memcpy(&g, &c.gain, 4);
      o << "\n  c " << hex(c.channelDescription, 200) << "|" << std::hex << g << "|" << static_cast<uint32_t>(c.bodyPartMask) << std::dec;
    }
  }
  return o.str();
}
static std::string firstDiff(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b);
  std::string l, m;
  while (true) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p && !q) return "same";
    if (!p || !q || l != m) return "expected [" + (p ? l : "") + "] got [" + (q ? m : "") + "]";
  }
}
static void file(Rng &r, long) {
  auto d = anyOhm(r);
  auto want = describe(d);
  R.identity(hashStr(want), d.getHapticElementMetadataSize() > 0);
  R.stat("elements", (double)d.getHapticElementMetadataSize());
  R.sample(want.substr(0, 400));
  std::string f = R.tmp + "/a.ohm";
  VCHECK(d.writeFile(f), "write-failed", "");
  VCHECK(describe(d) == want, "write-modifies-input", firstDiff(want, describe(d)));
  auto bytes = readAll(f);
  auto expect = layout(d);
  R.stat("bytes", (double)bytes.size());
  size_t k = 0;
  while (k < bytes.size() && k < expect.size() && bytes[k] == expect[k]) k++;
  VCHECK(bytes == expect, "layout", "differs at byte " << k << " sizes " << bytes.size() << " " << expect.size());
  OHMData back;
  if (r.chance(0.3)) back = anyOhm(r); // an object used before
  VCHECK(back.loadFile(f), "read-failed", "");
  VCHECK(describe(back) == want, "roundtrip", firstDiff(want, describe(back)));
  OHMData ctor(f);
  VCHECK(describe(ctor) == want, "constructor", firstDiff(want, describe(ctor)));
  std::string f2 = R.tmp + "/b.ohm";
  writeAll(f2, expect);
  OHMData mine;
  VCHECK(mine.loadFile(f2), "read-layout-failed", "");
  VCHECK(describe(mine) == want, "read-layout", firstDiff(want, describe(mine)));
  VCHECK(!back.loadFile(R.tmp + "/missing.ohm"), "missing-accepted", "");
  // damaged files
  for (int v = 0; v < 5; v++) {
    std::string b = expect;
    bool mustRefuse = false;
    switch (r.range(0, 4)) {
    case 0: case 1:
      b.resize((size_t)r.range(0, (long long)b.size() - 1));
      mustRefuse = true;
      R.stat("truncated");
      break;
    case 2:
      b[(size_t)r.range(0, 3)] ^= (char)r.range(1, 255);
      mustRefuse = true;
      R.stat("not_ohm");
      break;
    case 3:
      for (int q = (int)r.range(1, 6); q > 0; q--) b[(size_t)r.range(4, (long long)b.size() - 1)] = (char)r.range(0, 255);
      break;
    default: {
      int n = (int)r.range(0, 400);
      b = r.chance(0.7) ? "OHM " : "";
      for (int q = 0; q < n; q++) b += (char)r.range(0, 255);
      if (b.size() < 40) mustRefuse = true;
    }
    }
    writeAll(f2, b);
    OHMData x;
    bool ok = x.loadFile(f2);
    R.stat(ok ? "accepted" : "refused");
    VCHECK(!(ok && mustRefuse), "damaged-accepted", b.size() << " of " << expect.size() << " bytes " << hex(b, 12));
    OHMData y(f2); // the constructor reads the same data
  }
}
static ht::PerceptionModality modalityOf(const std::string &s) {
  using M = ht::PerceptionModality;
  static const std::map<std::string, M> m = {
      {"Pressure", M::Pressure}, {"Acceleration", M::Acceleration}, {"Velocity", M::Velocity}, {"Position", M::Position},
      {"Temperature", M::Temperature}, {"Vibration", M::Vibrotactile}, {"Vibrotactile", M::Vibrotactile}, {"Water", M::Water},
      {"Wind", M::Wind}, {"Kinesthetic", M::Force}, {"Force", M::Force}, {"Vibrotactile Texture", M::VibrotactileTexture},
      {"Texture", M::VibrotactileTexture}, {"Stiffness", M::Stiffness}, {"Friction", M::Friction}};
  auto b = s;
  if (b.size() > 7 && b.substr(b.size() - 7) == " effect") b = b.substr(0, b.size() - 7);
  if (s == "Electrotactile") return M::Electrotactile;
  auto it = m.find(b);
  return it == m.end() ? M::Other : it->second;
}
static void mapping(Rng &r, long) {
  auto d = anyOhm(r);
  auto before = describe(d);
  R.identity(hashStr(before), d.getHapticElementMetadataSize() > 0);
  R.sample(before.substr(0, 400));
  std::string prof = "Main";
  ht::Haptics h;
  h.loadMetadataFromOHM(d);
  VCHECK(describe(d) == before, "import-modifies-input", "");
  VCHECK(h.getVersion() == std::to_string(d.getVersion()), "version", h.getVersion());
  VCHECK(h.getDescription() == d.getDescription(), "description", h.getDescription());
  VCHECK(h.getPerceptionsSize() == d.getHapticElementMetadataSize(), "perceptions", h.getPerceptionsSize());
  std::set<int> ids;
  for (int i = 0; i < (int)std::min(h.getPerceptionsSize(), d.getHapticElementMetadataSize()); i++) {
    auto &p = h.getPerceptionAt(i);
    auto &e = d.getHapticElementMetadataAt(i);
    VCHECK(ids.insert(p.getId()).second, "perception-id-repeated", p.getId());
    VCHECK(p.getDescription() == e.elementDescription, "perception-description", hex(p.getDescription()));
    VCHECK(p.getPerceptionModality() == modalityOf(e.elementDescription), "modality", e.elementDescription);
    VCHECK(p.getChannelsSize() == e.channelsMetadata.size(), "channels", p.getChannelsSize());
    std::set<int> cids;
    for (int c = 0; c < (int)std::min(p.getChannelsSize(), e.channelsMetadata.size()); c++) {
      auto &ch = p.getChannelAt(c);
      auto &m = e.channelsMetadata[(size_t)c];
      R.stat("channels");
      VCHECK(cids.insert(ch.getId()).second, "channel-id-repeated", ch.getId());
      VCHECK(ch.getDescription() == m.channelDescription, "channel-description", hex(ch.getDescription()));
      VCHECK(ch.getGain() == m.gain, "gain", ch.getGain() << " for " << m.gain);
      VCHECK(ch.getMixingWeight() == 1.F, "mixing", ch.getMixingWeight());
      VCHECK(ch.getBodyPartMask() == static_cast<uint32_t>(m.bodyPartMask), "mask", ch.getBodyPartMask());
      VCHECK(ch.getBandsSize() == 0 && ch.getVerticesSize() == 0, "content", "");
    }
  }
  // bands do not matter for the metadata
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      if (r.chance(0.3)) {
        ht::Band b(ht::BandType::Curve, ht::CurveType::Linear, 0, 100);
        h.getPerceptionAt(i).getChannelAt(c).addBand(b);
      }
  auto hb = dumpHaptics(h);
  std::string name = text(r, 64);
  auto nameBefore = name;
  auto back = h.extractMetadataToOHM(name);
  VCHECK(name == nameBefore, "file-name-changed", name);
  compareDumps(hb, dumpHaptics(h), [](const std::string &) { return 0.0; }, "export-modifies-input");
  auto want = d;
  for (int i = 0; i < (int)want.getHapticElementMetadataSize(); i++) want.getHapticElementMetadataAt(i).elementFilename = name;
  VCHECK(describe(back) == describe(want), "export", firstDiff(describe(want), describe(back)));
  std::string f = R.tmp + "/c.ohm";
  VCHECK(back.writeFile(f), "export-write", "");
  OHMData again(f);
  VCHECK(describe(again) == describe(want), "export-file", firstDiff(describe(want), describe(again)));
}
int main(int argc, char **argv) {
  Modes m;
  m["file"] = {file};
  m["mapping"] = {mapping};
  return workerMain(argc, argv, m);
}
