// HMPG stream workloads.
#include <array>
#include "streamgen.hpp"
#include "format.hpp"
#include <IOHaptics/include/IOStream.h>
#include <IOHaptics/include/IOJson.h>
using namespace vf;
using haptics::io::IOStream;

static int pickPacketDuration(Rng &r, ht::Haptics &h) {
  std::vector<int> marks;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++) {
        auto &bd = h.getPerceptionAt(i).getChannelAt(c).getBandAt(b);
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto &ef = bd.getEffectAt(e);
          marks.push_back(ef.getPosition());
          for (int k = 0; k < (int)ef.getKeyframesSize(); k++)
            marks.push_back(ef.getPosition() + ef.getKeyframeAt(k).getRelativePosition().value_or(0));
        }
      }
  int mx = 1;
  for (int m : marks) mx = std::max(mx, m);
  int lo = std::max(1, mx / 2000); // bounds the number of packets
  int pd = 128;
  switch (r.range(0, 5)) {
  case 0: pd = (int)r.range(1, 4096); break;
  case 1: { // a mark on a packet boundary
    int m = marks.empty() ? 100 : r.pick(marks);
    pd = m > 0 ? std::max(1, m / (int)r.range(1, 12)) : 1;
    if (r.chance(0.3)) pd += (int)r.range(-1, 1);
    break;
  }
  case 2: pd = (int)r.range(1, 64); break;
  case 3: pd = mx + (int)r.range(-1, 2); break;
  case 4: pd = (int)r.range(1, 16777215); break;
  default: break;
  }
  return std::min(16777215, std::max(lo, pd));
}
static size_t countEffects(ht::Haptics &h, size_t *kfs = nullptr) {
  size_t n = 0;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++) {
        auto &bd = h.getPerceptionAt(i).getChannelAt(c).getBandAt(b);
        n += bd.getEffectsSize();
        if (kfs)
          for (int e = 0; e < (int)bd.getEffectsSize(); e++) *kfs += bd.getEffectAt(e).getKeyframesSize();
      }
  return n;
}
static ht::Haptics makeDoc1(Rng &r, StreamOpt so, int posScale) {
  GenOpt o = streamGenOpt(so);
  switch (posScale >= 0 ? posScale : (int)r.range(0, 3)) {
  case 0: o.posMax = 300; o.relPosMax = 200; break;
  case 1: o.posMax = 5000; o.relPosMax = 1000; break;
  case 2: o.posMax = 100000; o.relPosMax = 65000; o.maxKeyframes = 12; break;
  default: o.posMax = 2000; o.relPosMax = 4000; o.maxEffects = 8;
  }
  Gen g(r, o);
  auto h = g.haptics();
  fitStream(h, r, so, g);
  if (!so.emptyParts) prune(h);
  spice(h, r, g);
  if (r.chance(0.08)) R.statMax("silence_ticks", (double)farGap(h, r));
  return h;
}
static ht::Haptics makeDoc(Rng &r, StreamOpt so, int posScale = -1) {
  for (int i = 0; i < 8; i++) {
    auto h = makeDoc1(r, so, posScale);
    auto q = h;
    prune(q);
    if (q.getPerceptionsSize() > 0 || r.chance(0.02)) return h;
  }
  return makeDoc1(r, so, posScale);
}
// syncs at instants where a unit ends: the encoder repeats the description there
static int alignSyncs(Rng &r, ht::Haptics &h, int pd) {
  ht::Haptics out = h;
  if (pd > 100000) return 0;
  ht::Haptics n(h.getVersion(), h.getDate(), h.getDescription());
  std::string prof = h.getProfile();
  n.setProfile(prof);
  n.setLevel(h.getLevel());
  n.setTimescale(h.getTimescale());
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) n.addAvatar(h.getAvatarAt(i));
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) n.addPerception(h.getPerceptionAt(i));
  int c = (int)r.range(1, 4);
  long long t = 0;
  ht::Sync s0(0);
  n.addSync(s0);
  for (int i = 0; i < c; i++) {
    t += (long long)pd * r.range(1, 4);
    if (t > 2000000000) break;
    ht::Sync s((int)t);
    n.addSync(s);
  }
  h = n;
  return c;
}
static std::string ctx(int pd) { return "packet duration " + std::to_string(pd); }

// texts longer than their field: a stream carries their first 255 characters
template <class F> static void eachText(ht::Haptics &h, F f) {
  auto one = [&](const std::string &t, auto set) {
    std::string n = f(t);
    set(n);
  };
  one(h.getVersion(), [&](std::string &t) { h.setVersion(t); });
  one(h.getDate(), [&](std::string &t) { h.setDate(t); });
  one(h.getDescription(), [&](std::string &t) { h.setDescription(t); });
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(i);
    if (a.getMesh()) one(*a.getMesh(), [&](std::string &t) { a.setMesh(t); });
  }
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(i);
    one(p.getDescription(), [&](std::string &t) { p.setDescription(t); });
    if (p.getEffectSemanticScheme()) one(*p.getEffectSemanticScheme(), [&](std::string &t) { p.setEffectSemanticScheme(t); });
    for (int d = 0; d < (int)p.getReferenceDevicesSize(); d++)
      one(p.getReferenceDeviceAt(d).getName(), [&](std::string &t) { p.getReferenceDeviceAt(d).setName(t); });
    for (int c = 0; c < (int)p.getChannelsSize(); c++)
      one(p.getChannelAt(c).getDescription(), [&](std::string &t) { p.getChannelAt(c).setDescription(t); });
  }
}

static void roundtrip(Rng &r, Part part, bool wavelet = false) {
  StreamOpt so;
  so.emptyParts = !wavelet && r.chance(0.25);
  auto h = makeDoc(r, so);
  if (wavelet) {
    GenOpt go = streamGenOpt(so);
    Gen g(r, go);
    long n = addWaveletBands(h, r, g);
    R.stat("wavelet_blocks", (double)n);
  }
  int pd = pickPacketDuration(r, h);
  if (wavelet) delayWaveletBands(h, r, pd);
  if (r.chance(0.35)) R.stat("sync_points", alignSyncs(r, h, pd));
  auto pruned = h;
  prune(pruned);
  if (!so.emptyParts && r.chance(0.15)) {
    compose(h, r);
    R.stat("documents_with_composites");
  }
  if (part == Part::Meta && r.chance(0.1)) {
    double share = r.chance(0.5) ? 0.2 : 0.7;
    eachText(h, [&](const std::string &t) { return r.chance(share) ? longText(r, (int)r.range(256, 800)) : t; });
    pruned = h;
    eachText(pruned, [&](const std::string &t) { return t.substr(0, 255); });
    prune(pruned);
    R.stat("documents_with_overlong_texts");
  }
  auto before = dumpHaptics(h);
  auto want = streamExpected(pruned);
  size_t kfs = 0, n = countEffects(h, &kfs);
  R.identity(hashDump(before) ^ (uint64_t)pd, part == Part::Meta ? h.getPerceptionsSize() > 0 : kfs > 0);
  R.stat("fields_compared", (double)want.size());
  R.stat("effects", (double)n);
  R.stat("keyframes", (double)kfs);
  R.sample("packetDuration=" + std::to_string(pd) + " " + showDump(want, 800));
  std::string f = R.tmp + "/a.hmpg";
  bool ok = IOStream::writeFile(h, f, pd);
  VCHECK(ok, "write-failed", ctx(pd));
  auto after = dumpHaptics(h);
  compareDumps(before, after, [](const std::string &) { return 0.0; }, "write-modifies-input", ctx(pd));
  R.stat("bytes", (double)readAll(f).size());
  ht::Haptics out;
  ok = IOStream::readFile(f, out);
  VCHECK(ok, "read-failed", ctx(pd));
  auto got = dumpHaptics(out);
  dropBasisIds(got);
  compareDumps(want, got, streamTol(part), "roundtrip", ctx(pd));
}
static void meta(Rng &r, long) { roundtrip(r, Part::Meta); }
static void wavelet(Rng &r, long) { roundtrip(r, Part::Effects, true); }
static void effects(Rng &r, long) { roundtrip(r, Part::Effects); }

// ---- the bytes themselves
static void framing(Rng &r, long) {
  StreamOpt so;
  bool wav = r.chance(0.4);
  so.emptyParts = !wav && r.chance(0.2);
  auto h = makeDoc(r, so);
  if (wav) {
    GenOpt go = streamGenOpt(so);
    Gen g(r, go);
    addWaveletBands(h, r, g);
  }
  int pd = pickPacketDuration(r, h);
  if (wav) delayWaveletBands(h, r, pd);
  if (r.chance(0.5)) alignSyncs(r, h, pd);
  auto pruned = h;
  prune(pruned);
  if (!so.emptyParts && r.chance(0.15)) compose(h, r);
  std::string f = R.tmp + "/a.hmpg";
  VCHECK(IOStream::writeFile(h, f, pd), "write-failed", ctx(pd));
  auto bytes = readAll(f);
  R.identity(hashStr(bytes), pruned.getPerceptionsSize() > 0);
  R.sample(ctx(pd) + " " + std::to_string(bytes.size()) + " bytes " + hex(bytes, 120));
  HStream st;
  try {
    st = parseHmpg(bytes);
  } catch (HmpgError &e) {
    R.violation("framing:" + e.key, e.detail + " | " + ctx(pd));
    return;
  }
  R.stat("bytes", (double)bytes.size());
  R.stat("units", (double)st.units.size());
  R.stat("initialization_units", (double)st.initBodies.size());
  // the description is the one of the experience
  VCHECK(st.d.timescale == h.getTimescaleOrDefault(), "timescale", ctx(pd));
  VCHECK(st.d.p.size() == pruned.getPerceptionsSize() && st.d.avatars == (int)h.getAvatarsSize(), "description-size", ctx(pd));
  for (auto &b : st.initBodies) VCHECK(b == st.initBodies[0], "initialization-differs", ctx(pd));
  size_t ci = 0, bi = 0;
  std::map<std::array<int, 3>, int> bandOf; // perception, channel and band id -> rank
  std::vector<ht::Band *> bands;
  std::vector<bool> spatial;
  for (int i = 0; i < (int)pruned.getPerceptionsSize(); i++) {
    auto &p = pruned.getPerceptionAt(i);
    VCHECK(st.d.p[i].id == p.getId() && st.d.p[i].library == (int)p.getEffectLibrarySize(), "description-perception", ctx(pd));
    for (int c = 0; c < (int)p.getChannelsSize(); c++, ci++) {
      auto &ch = p.getChannelAt(c);
      VCHECK(ci < st.d.c.size() && st.d.c[ci].id == ch.getId() && st.d.c[ci].perception == p.getId(), "description-channel", ctx(pd));
      for (int b = 0; b < (int)ch.getBandsSize(); b++, bi++) {
        VCHECK(bi < st.d.b.size() && st.d.b[bi].channel == ch.getId() && st.d.b[bi].perception == p.getId() &&
                   st.d.b[bi].type == (int)ch.getBandAt(b).getBandType(),
               "description-band", ctx(pd));
        bandOf[{st.d.b[bi].perception, st.d.b[bi].channel, st.d.b[bi].id}] = (int)bi;
        bands.push_back(&ch.getBandAt(b));
        spatial.push_back(spatialModality(p));
      }
    }
  }
  VCHECK(ci == st.d.c.size() && bi == st.d.b.size(), "description-extra", ctx(pd));
  // the units cover the effects in time
  std::set<std::pair<int, int>> seen;
  std::vector<size_t> kfSeen(bands.size(), 0), blocks(bands.size(), 0), refs(bands.size(), 0);
  long nd = 0;
  for (size_t k = 0; k < st.units.size(); k++) {
    auto &u = st.units[k];
    std::string where = "unit " + std::to_string(k) + " at " + std::to_string(u.start) + ", " + ctx(pd);
    if (u.type == U_SILENT) VCHECK(u.duration % pd == 0, "silent-duration", where);
    if (u.type != U_TEMPORAL) continue;
    VCHECK(u.duration == pd, "temporal-duration", where);
    VCHECK(u.start % pd == 0, "temporal-start", where);
    bool allIndependent = true;
    for (auto &d : u.data) {
      nd++;
      int rank = bandOf.at({d.perception, d.channel, d.band});
      bool dep = false;
      for (auto &e : d.effects) {
        if (e.wavelet) {
          blocks[rank]++;
          continue;
        }
        if (e.type != 0) {
          refs[rank]++;
          if (!spatial[rank]) VCHECK(e.position >= u.start && e.position < u.start + pd, "reference-outside-unit", where);
          continue;
        }
        dep |= !seen.insert({rank, e.id}).second;
        kfSeen[rank] += e.keyframes.size();
        if (!spatial[rank])
          for (auto t : e.keyframes) VCHECK(t >= u.start && t < u.start + pd, "keyframe-outside-unit", where + " keyframe at " + std::to_string(t));
      }
      VCHECK(dep == d.dependent, "access-type", where);
      allIndependent &= !d.dependent;
    }
    VCHECK((u.sync == 0) == allIndependent, "unit-sync", where);
  }
  for (size_t k = 0; k < st.units.size(); k++)
    if (st.units[k].type == U_SILENT) {
      size_t n = k + 1;
      while (n < st.units.size() && st.units[n].type == U_SILENT) n++;
      if (n < st.units.size()) VCHECK(st.units[k].sync == st.units[n].sync, "silent-sync", ctx(pd));
    }
  R.stat("data_packets", (double)nd);
  for (size_t b = 0; b < bands.size(); b++) {
    size_t kf = 0, rf = 0, wb = 0;
    for (int e = 0; e < (int)bands[b]->getEffectsSize(); e++) {
      auto &ef = bands[b]->getEffectAt(e);
      if (bands[b]->getBandType() == ht::BandType::WaveletWave) wb++;
      else if (ef.getEffectType() == ht::EffectType::Basis) kf += ef.getKeyframesSize();
      else rf++;
    }
    VCHECK(kf == kfSeen[b] && rf == refs[b] && wb == blocks[b], "content-count",
           "band " + std::to_string(b) + ": " + std::to_string(kfSeen[b]) + "/" + std::to_string(kf) + " keyframes " + ctx(pd));
  }
}

// ---- repeated use
static ht::Haptics anyDoc(Rng &r, int &pd, bool &wav, bool syncs = true) {
  StreamOpt so;
  wav = r.chance(0.35);
  auto h = makeDoc(r, so);
  if (wav) {
    GenOpt go = streamGenOpt(so);
    Gen g(r, go);
    addWaveletBands(h, r, g);
  }
  pd = pickPacketDuration(r, h);
  if (wav) delayWaveletBands(h, r, pd);
  if (syncs && r.chance(0.3)) alignSyncs(r, h, pd);
  if (r.chance(0.15)) compose(h, r);
  return h;
}
static std::string encode(ht::Haptics h, int pd, const char *name) {
  std::string f = R.tmp + "/" + name;
  if (!IOStream::writeFile(h, f, pd)) return "write failed";
  return readAll(f);
}
static ht::Haptics decode(const char *name) {
  ht::Haptics h;
  IOStream::readFile(R.tmp + "/" + name, h);
  return h;
}
// identifiers of wavelet blocks are given anew by every encoding
static void dropWaveletIds(ht::Haptics &h) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
    for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
      for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++) {
        auto &bd = h.getPerceptionAt(i).getChannelAt(c).getBandAt(b);
        if (bd.getBandType() != ht::BandType::WaveletWave) continue;
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) bd.getEffectAt(e).setId(-1);
      }
}
static void stable(Rng &r, long) {
  int pd, pd2;
  bool wav, wav2;
  auto h = anyDoc(r, pd, wav);
  size_t kfs = 0;
  countEffects(h, &kfs);
  R.identity(hashDump(dumpHaptics(h)) ^ (uint64_t)pd, h.getPerceptionsSize() > 0);
  R.sample(ctx(pd) + " " + showDump(dumpHaptics(h), 600));
  auto b1 = encode(h, pd, "a.hmpg");
  auto d1 = decode("a.hmpg");
  dropWaveletIds(d1);
  auto dump1 = dumpHaptics(d1);
  if (r.chance(0.6)) { // other work in between
    auto o = anyDoc(r, pd2, wav2);
    encode(o, pd2, "o.hmpg");
    decode("o.hmpg");
    R.stat("interleaved");
  }
  auto b1b = encode(h, pd, "b.hmpg");
  VCHECK(b1 == b1b, "not-deterministic", ctx(pd));
  auto again = decode("b.hmpg");
  dropWaveletIds(again);
  compareDumps(dump1, dumpHaptics(again), [](const std::string &) { return 0.0; }, "decode-differs", ctx(pd));
  { // decoding replaces whatever the target held
    auto t = h;
    IOStream::readFile(R.tmp + "/a.hmpg", t);
    dropWaveletIds(t);
    compareDumps(dump1, dumpHaptics(t), [](const std::string &) { return 0.0; }, "decode-into-used", ctx(pd));
  }
  // generations
  auto prev = dump1;
  auto cur = d1;
  std::string pb;
  for (int gen = 2; gen <= 4; gen++) {
    auto b = encode(cur, pd, "g.hmpg");
    auto nx = decode("g.hmpg");
    dropWaveletIds(nx);
    auto dn = dumpHaptics(nx);
    compareDumps(prev, dn, [](const std::string &) { return 0.0; }, "generation", ctx(pd) + " generation " + std::to_string(gen));
    if (!pb.empty()) VCHECK(wav || pb == b, "generation-bytes", ctx(pd) + " generation " + std::to_string(gen));
    pb = b;
    prev = dn;
    cur = nx;
  }
  R.stat("generations", 3);
  R.stat("keyframes", (double)kfs);
}
// ---- joining later
static void join(Rng &r, long) {
  StreamOpt so;
  auto h = makeDoc(r, so, r.chance(0.7) ? 1 : -1);
  int pd = pickPacketDuration(r, h);
  if (r.chance(0.8)) { // several units
    long long mx = 1;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
      for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
        for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++) {
          auto &bd = h.getPerceptionAt(i).getChannelAt(c).getBandAt(b);
          for (int e = 0; e < (int)bd.getEffectsSize(); e++) mx = std::max(mx, (long long)bd.getEffectAt(e).getPosition());
        }
    pd = (int)std::max<long long>(1, std::min<long long>(16777215, mx / r.range(3, 30)));
  }
  alignSyncs(r, h, pd);
  auto bytes = encode(h, pd, "a.hmpg");
  HStream st;
  try {
    st = parseHmpg(bytes);
  } catch (HmpgError &e) {
    R.violation("framing:" + e.key, e.detail + " | " + ctx(pd));
    return;
  }
  std::vector<size_t> entry;
  for (size_t k = 1; k < st.units.size(); k++)
    if (st.units[k].type == U_INIT) entry.push_back(k);
  // an entry point exists for every requested instant at which a unit with content ends
  bool nontrivial = !entry.empty();
  R.identity(hashStr(bytes), nontrivial);
  R.sample(ctx(pd) + " units " + std::to_string(st.units.size()) + " entries " + std::to_string(entry.size()) + " " + hex(bytes, 80));
  if (entry.empty()) return;
  R.stat("joins");
  auto &u = st.units[r.pick(entry)];
  writeAll(R.tmp + "/j.hmpg", bytes.substr(u.byteStart));
  ht::Haptics out;
  VCHECK(IOStream::readFile(R.tmp + "/j.hmpg", out), "read-failed", ctx(pd));
  auto want = streamExpected(h);
  auto got = dumpHaptics(out);
  std::string where = "joined at " + std::to_string(u.start) + ", " + ctx(pd);
  compareDumps(want, got, streamTol(Part::Meta), "join-description", where);
  if (out.getPerceptionsSize() != h.getPerceptionsSize()) return;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    auto &hp = h.getPerceptionAt(i);
    auto &op = out.getPerceptionAt(i);
    if (spatialModality(hp) || op.getChannelsSize() != hp.getChannelsSize()) continue;
    for (int c = 0; c < (int)hp.getChannelsSize(); c++) {
      if (op.getChannelAt(c).getBandsSize() != hp.getChannelAt(c).getBandsSize()) continue;
      for (int b = 0; b < (int)hp.getChannelAt(c).getBandsSize(); b++) {
        auto &hb = hp.getChannelAt(c).getBandAt(b);
        auto &ob = op.getChannelAt(c).getBandAt(b);
        // whole effects from the entry on, and the remaining keyframes of the ones already running
        std::vector<std::array<long long, 4>> w, g;
        auto list = [&](ht::Band &bd, std::vector<std::array<long long, 4>> &v, bool cut) {
          for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
            auto &ef = bd.getEffectAt(e);
            if (ef.getEffectType() != ht::EffectType::Basis) {
              if (!cut || ef.getPosition() >= u.start) v.push_back({ef.getPosition(), ef.getId(), -1, -1});
              continue;
            }
            for (int k = 0; k < (int)ef.getKeyframesSize(); k++) {
              auto &kf = ef.getKeyframeAt(k);
              long long t = (long long)ef.getPosition() + kf.getRelativePosition().value_or(0);
              if (cut && t < u.start) continue;
              v.push_back({ef.getPosition(), t, kf.getFrequencyModulation().value_or(-1),
                           kf.getAmplitudeModulation() ? llround((*kf.getAmplitudeModulation() + 1) * 10) : -1});
            }
          }
          std::sort(v.begin(), v.end());
        };
        list(hb, w, true);
        list(ob, g, false);
        R.stat("keyframes_after_join", (double)w.size());
        bool same = w.size() == g.size();
        for (size_t k = 0; same && k < w.size(); k++)
          same = w[k][0] == g[k][0] && w[k][1] == g[k][1] && w[k][2] == g[k][2] && std::llabs(w[k][3] - g[k][3]) <= 1;
        VCHECK(same, "join-effects", where + " band " + std::to_string(b) + ": expected " + std::to_string(w.size()) + " got " + std::to_string(g.size()));
      }
    }
  }
}

// ---- hostile input
struct RawUnit {
  size_t at, len; // bytes of the whole unit
};
static uint64_t bitsAt(const std::string &s, size_t byte, int bit, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) {
    size_t p = byte * 8 + (size_t)bit + (size_t)i;
    v = (v << 1) | (uint64_t)(((unsigned char)s[p / 8] >> (7 - p % 8)) & 1);
  }
  return v;
}
static void setBits(std::string &s, size_t byte, int bit, int n, uint64_t v) {
  for (int i = 0; i < n; i++) {
    size_t p = byte * 8 + (size_t)bit + (size_t)i;
    if (p / 8 >= s.size()) return;
    unsigned char m = (unsigned char)(1U << (7 - p % 8));
    if ((v >> (n - 1 - i)) & 1) s[p / 8] = (char)((unsigned char)s[p / 8] | m);
    else s[p / 8] = (char)((unsigned char)s[p / 8] & ~m);
  }
}
// the framing alone: does every unit lie in the file and every packet in its unit?
static bool framingHolds(const std::string &s, std::vector<RawUnit> *units = nullptr, std::vector<std::array<size_t, 3>> *packets = nullptr) {
  size_t at = 0;
  if (s.empty()) return false;
  while (at < s.size()) {
    if (s.size() - at < 9) return false;
    uint64_t len = bitsAt(s, at, 36, 32);
    if (len > s.size() - at - 9) return false;
    size_t p = at + 9, end = at + 9 + len;
    while (p < end) {
      if (end - p < 3) return false;
      uint64_t pl = bitsAt(s, p, 6, 17);
      if (pl > end - p - 3) return false;
      if (packets) packets->push_back({p, 3 + pl, at});
      p += 3 + pl;
    }
    if (units) units->push_back({at, 9 + (size_t)len});
    at = end;
  }
  return true;
}
static std::string bitString(Rng &r, size_t n) {
  std::string s(n, 0);
  int style = (int)r.range(0, 4);
  for (auto &c : s) {
    if (style == 0) c = (char)r.range(0, 255);
    else if (style == 1) c = (char)(r.chance(0.8) ? 0 : r.range(0, 255));
    else if (style == 2) c = (char)(r.chance(0.7) ? 255 : r.range(0, 255));
    else if (style == 3) c = (char)r.range(0, 3);
    else c = (char)(1 << r.range(0, 7));
  }
  return s;
}
static std::string rawPacket(int type, const std::string &payload) {
  std::string p(3, 0);
  setBits(p, 0, 0, 6, (uint64_t)type);
  setBits(p, 0, 6, 17, payload.size());
  return p + payload;
}
static std::string rawUnit(Rng &r, int type, const std::string &packets) {
  std::string u(9, 0);
  setBits(u, 0, 0, 6, (uint64_t)type);
  setBits(u, 0, 6, 2, (uint64_t)r.range(0, 3));
  setBits(u, 0, 8, 4, (uint64_t)r.range(0, 15));
  setBits(u, 0, 12, 24, r.chance(0.5) ? (uint64_t)r.range(0, 16777215) : (uint64_t)r.range(0, 200));
  setBits(u, 0, 36, 32, packets.size());
  return u + packets;
}
static const uint64_t edgeValues[] = {0, 1, 2, 7, 8, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 131071, 0x7fffffff, 0x80000000, 0xffffffff};
static bool hostileRead(const std::string &bytes, ht::Haptics &h, const char *what) {
  R.stat(std::string("reads:") + what);
  writeAll(R.tmp + "/x.hmpg", bytes);
  return IOStream::readFile(R.tmp + "/x.hmpg", h);
}
static std::vector<std::string> hostilePool(Rng &r) {
  std::vector<std::string> pool;
  for (int i = 0; i < 2; i++) {
    int pd;
    bool wav;
    for (int tries = 0; tries < 6; tries++) {
      auto h = anyDoc(r, pd, wav);
      if (r.chance(0.5)) pd = (int)std::min<long long>(16777215, (long long)pd * r.range(1, 40));
      auto b = encode(h, pd, "p.hmpg");
      if (b.size() > 20000) continue;
      pool.push_back(b);
      break;
    }
  }
  if (pool.empty()) {
    ht::Haptics h;
    pool.push_back(encode(h, 128, "p.hmpg"));
  }
  return pool;
}
static void hostile(Rng &r, long) {
  auto pool = hostilePool(r);
  for (auto &b : pool) {
    ht::Haptics h;
    VCHECK(hostileRead(b, h, "valid"), "valid-refused", "");
  }
  uint64_t id = 0;
  long changed = 0;
  int rounds = 8;
  for (int k = 0; k < rounds; k++) {
    std::string s = r.pick(pool);
    std::vector<RawUnit> units;
    std::vector<std::array<size_t, 3>> packets;
    VCHECK(framingHolds(s, &units, &packets), "written-framing", "");
    std::string what;
    switch (r.range(0, 12)) {
    case 0: { // cut anywhere
      what = "cut";
      s.resize((size_t)r.range(0, (long long)s.size() - 1));
      break;
    }
    case 1: { // cut inside the last bytes of a unit or packet
      what = "cut-edge";
      auto p = packets.empty() ? std::array<size_t, 3>{0, 9, 0} : packets[(size_t)r.range(0, (long long)packets.size() - 1)];
      long long at = (long long)(p[0] + (r.chance(0.5) ? p[1] : 0)) + r.range(-4, 4);
      s.resize((size_t)std::min<long long>(std::max<long long>(0, at), (long long)s.size()));
      break;
    }
    case 2: { // a length field claims something else
      what = "length";
      if (r.chance(0.5) || packets.empty()) {
        auto &u = units[(size_t)r.range(0, (long long)units.size() - 1)];
        uint64_t len = bitsAt(s, u.at, 36, 32);
        long long nl = r.chance(0.5) ? (long long)len + r.range(-6, 6) : (long long)edgeValues[r.range(0, 16)];
        setBits(s, u.at, 36, 32, (uint64_t)nl);
      } else {
        auto &p = packets[(size_t)r.range(0, (long long)packets.size() - 1)];
        long long nl = r.chance(0.5) ? (long long)p[1] - 3 + r.range(-6, 6) : (long long)edgeValues[r.range(0, 13)];
        setBits(s, p[0], 6, 17, (uint64_t)nl);
      }
      break;
    }
    case 3: { // bit flips
      what = "flip";
      for (int n = (int)r.range(1, 12); n > 0; n--) s[(size_t)r.range(0, (long long)s.size() - 1)] ^= (char)(1 << r.range(0, 7));
      break;
    }
    case 4:
    case 5: { // a field of a packet takes an edge value
      what = "field";
      if (packets.empty()) break;
      for (int n = (int)r.range(1, 3); n > 0; n--) {
        auto &p = packets[(size_t)r.range(0, (long long)packets.size() - 1)];
        if (p[1] <= 3) continue;
        int w = (int)r.pick(std::vector<int>{1, 2, 3, 4, 8, 8, 12, 16, 16, 24, 32});
        setBits(s, p[0] + 3, (int)r.range(0, std::min<long long>(200, ((long long)p[1] - 3) * 8 - 1)), w, edgeValues[r.range(0, 16)]);
      }
      break;
    }
    case 6: { // units dropped, repeated, in another order, from another stream
      what = "splice";
      std::vector<std::string> us;
      for (auto &b : pool) {
        std::vector<RawUnit> ru;
        framingHolds(b, &ru);
        for (auto &u : ru) us.push_back(b.substr(u.at, u.len));
      }
      std::string o;
      for (int n = (int)r.range(1, 12); n > 0 && o.size() < 30000; n--) o += us[(size_t)r.range(0, (long long)us.size() - 1)];
      s = o;
      break;
    }
    case 7: { // packets of the streams in any order and unit
      what = "packets";
      std::vector<std::string> ps;
      for (auto &b : pool) {
        std::vector<std::array<size_t, 3>> rp;
        framingHolds(b, nullptr, &rp);
        for (auto &p : rp) ps.push_back(b.substr(p[0], p[1]));
      }
      if (ps.empty()) break;
      std::string o;
      if (r.chance(0.7)) o = s.substr(0, units[0].len);
      for (int n = (int)r.range(1, 6); n > 0 && o.size() < 30000; n--) {
        std::string u;
        for (int m = (int)r.range(0, 4); m > 0; m--) u += ps[(size_t)r.range(0, (long long)ps.size() - 1)];
        o += rawUnit(r, (int)r.range(0, 4), u);
      }
      s = o;
      break;
    }
    case 8: { // units with packets of arbitrary content after a real description
      what = "content";
      std::string o;
      if (r.chance(0.8)) o = s.substr(0, units[0].len);
      for (int n = (int)r.range(1, 6); n > 0; n--) {
        std::string u;
        for (int m = (int)r.range(1, 4); m > 0; m--) {
          int type = r.chance(0.9) ? (int)r.range(0, 11) : (int)r.range(0, 63);
          std::string payload = bitString(r, (size_t)(r.chance(0.8) ? r.range(0, 60) : r.range(0, 1500)));
          u += rawPacket(type, payload);
        }
        o += rawUnit(r, (int)r.range(0, 5), u);
      }
      s = o;
      break;
    }
    case 9: { // protected by a checksum that does or does not hold
      what = "crc";
      std::string payload = bitString(r, (size_t)r.range(0, 8));
      if (payload.size() && r.chance(0.7)) payload[0] = (char)r.range(0, 3);
      auto &u = units[(size_t)r.range(0, (long long)units.size() - 1)];
      s = s.substr(0, u.at) + rawUnit(r, (int)r.range(0, 3), rawPacket((int)r.range(7, 10), payload)) + s.substr(u.at);
      break;
    }
    case 10: { // libraries of nested effects
      what = "nested";
      if (units.empty() || packets.empty()) break;
      std::string bits;
      auto put = [&](int n, uint64_t v) {
        for (int i = n - 1; i >= 0; i--) bits += (v >> i) & 1 ? '1' : '0';
      };
      size_t pid = 0;
      for (auto &p : packets)
        if (bitsAt(s, p[0], 0, 6) == 2 && p[1] > 4) pid = (unsigned char)s[p[0] + 3];
      put(8, pid);
      put(16, 1);
      int depth = r.chance(0.5) ? (int)r.range(1, 60) : (int)r.range(1000, 9000);
      for (int d = 0; d < depth; d++) {
        put(16, (uint64_t)d & 65535);
        put(2, 2);
        put(1, 0);
        put(25, 0);
        put(16, 0); // keyframes
        put(16, d + 1 < depth); // one more effect inside
      }
      while (bits.size() % 8) bits += '0';
      std::string payload(bits.size() / 8, 0);
      for (size_t i = 0; i < bits.size(); i++) setBits(payload, 0, (int)i, 1, bits[i] == '1');
      payload.resize(std::min<size_t>(payload.size(), 131071));
      s = s.substr(0, units[0].len) + rawUnit(r, 0, rawPacket(6, payload));
      break;
    }
    case 11: { // real packets whose end is replaced
      what = "tail";
      std::vector<std::string> ps;
      for (auto &p : packets) ps.push_back(s.substr(p[0], p[1]));
      if (ps.empty()) break;
      std::string o = s.substr(0, units[0].len);
      for (int n = (int)r.range(1, 6); n > 0; n--) {
        std::string u;
        for (int m = (int)r.range(1, 4); m > 0; m--) {
          auto p = ps[(size_t)r.range(0, (long long)ps.size() - 1)];
          auto body = p.substr(3);
          size_t keep = std::min<size_t>(body.size(), (size_t)r.range(3, 14));
          body = body.substr(0, keep) + bitString(r, (size_t)r.range(0, 200));
          u += rawPacket((int)bitsAt(p, 0, 0, 6), body);
        }
        o += rawUnit(r, (int)r.range(0, 3), u);
      }
      s = o;
      break;
    }
    default: {
      what = "noise";
      s = bitString(r, (size_t)r.range(0, 600));
      break;
    }
    }
    id = hashStr(s) ^ (id * 31);
    bool holds = framingHolds(s);
    ht::Haptics h;
    bool ok = hostileRead(s, h, what.c_str());
    changed++;
    R.stat(std::string(ok ? "accepted:" : "refused:") + what);
    if (!holds) {
      R.stat("over_claims");
      VCHECK(!ok, "over-claim-accepted:" + what, s.size() << " bytes " << hex(s));
    }
    if (ok) {
      auto d = dumpHaptics(h);
      haptics::io::IOJson::writeFile(h, R.tmp + "/x.hjif");
      auto text = readAll(R.tmp + "/x.hjif");
      VCHECK(text.size() > 20 && text[0] == '{' && text.find_last_of('}') != std::string::npos, "accepted-not-writable", what);
      unlink((R.tmp + "/x.hjif").c_str());
      R.stat("saved_as_hjif");
    }
    if (what == "cut" || what == "cut-edge") VCHECK(ok == holds, "cut:verdict", "accepted " << ok << " of " << s.size() << " bytes");
  }
  // files that cannot be read
  ht::Haptics h;
  VCHECK(!IOStream::readFile(R.tmp + "/no-such-file.hmpg", h), "missing-accepted", "");
  VCHECK(!IOStream::readFile(R.tmp, h), "directory-accepted", "");
  VCHECK(!IOStream::readFile("/", h), "directory-accepted", "");
  R.identity(id, changed > 0);
  R.sample("variants changed " + std::to_string(changed));
}

// every field of a stream where the format puts it, in the codes the format has for it
static void layout(Rng &r, long) {
  StreamOpt so;
  so.emptyParts = r.chance(0.15);
  auto h = makeDoc(r, so, r.chance(0.7) ? (int)r.range(0, 2) : -1);
  if (r.chance(0.3)) {
    GenOpt go = streamGenOpt(so);
    Gen g(r, go);
    R.stat("wavelet_blocks", (double)addWaveletBands(h, r, g));
  }
  int pd = 16777215 - (int)r.range(0, 1000); // effects in one piece
  auto pruned = h;
  prune(pruned);
  auto want = streamExpected(pruned);
  for (auto it = want.begin(); it != want.end();) // blocks follow one another: they have no position of their own
    if (it->first.find(".e[") != std::string::npos && !stripLast(it->first, ".position").empty() &&
        want.at(it->first.substr(0, it->first.rfind(".e[")) + ".type").d == static_cast<int>(ht::BandType::WaveletWave))
      it = want.erase(it);
    else
      ++it;
  want = published(want, false);
  R.identity(hashDump(want) ^ (uint64_t)pd, pruned.getPerceptionsSize() > 0);
  R.sample("packetDuration=" + std::to_string(pd) + " " + showDump(want, 800));
  std::string f = R.tmp + "/a.hmpg";
  VCHECK(IOStream::writeFile(h, f, pd), "write-failed", ctx(pd));
  auto s = readAll(f);
  R.stat("bytes", (double)s.size());
  try {
    auto got = readStream(s);
    put(got.d, "#perceptions", (double)got.perception.size());
    R.stat("packets_decoded", got.packets);
    R.stat("fields_compared", (double)want.size());
    compareDumps(want, got.d, streamTol(Part::All), "layout", ctx(pd));
  } catch (const HmpgError &e) {
    R.violation("layout:" + e.key, e.detail + " | " + ctx(pd));
  } catch (const std::out_of_range &) {
    R.violation("layout:undeclared", "a packet refers to a perception, channel or band not declared before | " + ctx(pd));
  }
}

// ------------------------------------------------------------------------------------- checksums
static uint32_t crcOf(const std::string &s, int bits, uint32_t crc = 0) {
  const uint32_t poly = bits == 16 ? 0xC021U : 0x82608ED7U, top = 1U << (bits - 1), mask = bits == 16 ? 0xFFFFU : 0xFFFFFFFFU;
  for (char c : s)
    for (int i = 7; i >= 0; i--) {
      bool out = (crc & top) != 0, in = (((unsigned char)c >> i) & 1) != 0;
      crc = (crc << 1) & mask;
      if (out != in) crc ^= poly;
    }
  return crc;
}
static void checksum(Rng &r, long) {
  int pd;
  bool wav;
  auto h = anyDoc(r, pd, wav);
  if (r.chance(0.6)) { // effects that run over several packets
    long long mx = 1;
    for (int i = 0; i < (int)h.getPerceptionsSize(); i++)
      for (int c = 0; c < (int)h.getPerceptionAt(i).getChannelsSize(); c++)
        for (int b = 0; b < (int)h.getPerceptionAt(i).getChannelAt(c).getBandsSize(); b++)
          mx = std::max(mx, (long long)std::min(1e9, h.getPerceptionAt(i).getChannelAt(c).getBandAt(b).getBandTimeLength(h.getTimescaleOrDefault())));
    pd = (int)std::max<long long>(1, std::min<long long>(16777215, mx / r.range(2, 30)));
  }
  if (r.chance(0.5)) alignSyncs(r, h, pd); // repeated descriptions
  auto bytes = encode(h, pd, "a.hmpg");
  if (bytes.size() > 60000) return;
  std::vector<RawUnit> raw;
  VCHECK(framingHolds(bytes, &raw), "framing", ctx(pd));
  std::vector<std::string> units;
  for (auto &u : raw) units.push_back(bytes.substr(u.at, u.len));
  if (units.empty()) return;
  // some units get a checksum unit behind them
  std::vector<std::string> with, without;
  bool waiting = false;
  int checks = 0, broken = 0, dropped = 0, zero = 0;
  uint64_t now = 0, timescale = 1000;
  std::vector<std::array<uint64_t, 2>> times; // stated by timing packets
  std::string all; // what `with` holds
  std::vector<size_t> ends;
  std::string log;
  for (size_t k = 0; k < units.size(); k++) {
    auto &u = units[k];
    if (bitsAt(u, 0, 6, 2) == 0) waiting = false;
    std::string kept;
    for (size_t p = 9; p < u.size();) {
      size_t n = 3 + bitsAt(u, p, 6, 17);
      bool data = bitsAt(u, p, 0, 6) == 5, dependent = data && bitsAt(u, p + 3, 0, 1) == 1;
      if (data && !dependent) waiting = false;
      if (bitsAt(u, p, 0, 6) == 11) now = bitsAt(u, p + 3, 0, 32), timescale = bitsAt(u, p + 3, 32, 32);
      if (dependent && waiting) dropped++;
      else kept += u.substr(p, n);
      p += n;
    }
    auto o = u.substr(0, 9);
    setBits(o, 0, 36, 32, kept.size());
    with.push_back(u);
    without.push_back(o + kept);
    all += u;
    ends.push_back(all.size());
    now += bitsAt(u, 0, 12, 24);
    if (r.chance(units.size() < 6 ? 0.3 : 2.0 / (double)units.size())) { // the time, as it is
      std::string t(9, 0), p(4, 0);
      setBits(t, 0, 0, 6, 1);
      setBits(t, 0, 6, 2, waiting ? 1 : (uint64_t)r.range(0, 1));
      setBits(p, 0, 0, 32, now);
      p = rawPacket(0, p);
      setBits(t, 0, 36, 32, p.size());
      with.push_back(t + p);
      all += t + p;
      ends.push_back(all.size());
      times.push_back({now, timescale});
      log += " time " + std::to_string(now) + "/" + std::to_string(timescale);
    }
    if (!r.chance(units.size() < 6 ? 0.6 : 4.0 / (double)units.size())) continue;
    int bits = r.chance(0.5) ? 16 : 32;
    bool global = r.chance(0.6);
    size_t count = global ? (size_t)r.range(1, (long long)std::min<size_t>(ends.size(), 255)) : 1;
    if (bits == 16 && global && ends.size() < 255 && r.chance(0.3)) {
      // a silent unit that makes the checksum zero
      std::string t(9, 0);
      setBits(t, 0, 0, 6, 3);
      setBits(t, 0, 6, 2, waiting ? 1 : 0);
      auto before = crcOf(all, 16);
      bool found = false;
      for (uint64_t v = 0; v < (1U << 20) && !found; v++) {
        setBits(t, 0, 14, 22, v);
        found = crcOf(t, 16, before) == 0;
      }
      if (found) {
        now += bitsAt(t, 0, 12, 24);
        with.push_back(t);
        without.push_back(t);
        all += t;
        ends.push_back(all.size());
        count = ends.size();
        zero++;
      }
    }
    auto value = crcOf(all.substr(0, ends[count - 1]), bits);
    bool holds = r.chance(0.6);
    if (!holds) {
      if (r.chance(0.5)) value ^= 1U << r.range(0, bits - 1);
      else if (r.chance(0.5) && value) value = 0;
      else if (global && units.size() * 2 < 250) count = units.size() * 2 + (size_t)r.range(1, 5); // more than there is, whatever the value
      else value = ~value & (bits == 16 ? 0xFFFFU : 0xFFFFFFFFU);
    }
    int type = global ? (bits == 16 ? 9 : 10) : (bits == 16 ? 8 : 7);
    std::string payload((size_t)(bits / 8) + (global ? 1 : 0), 0);
    if (global) setBits(payload, 0, 0, 8, count);
    setBits(payload, 0, global ? 8 : 0, bits, value);
    std::string c(9, 0);
    setBits(c, 0, 0, 6, (uint64_t)r.range(0, 3));
    int sync = r.chance(0.7) ? 1 : 0;
    setBits(c, 0, 6, 2, (uint64_t)sync);
    auto packet = rawPacket(type, payload);
    setBits(c, 0, 36, 32, packet.size());
    c += packet;
    with.push_back(c);
    all += c;
    ends.push_back(all.size());
    if (sync == 0) waiting = false;
    checks++;
    if (!holds) waiting = true, broken++;
    log += " unit " + std::to_string(k) + (holds ? " ok" : " broken") + " type " + std::to_string(type) + " over " + std::to_string(count);
  }
  R.identity(hashStr(all), checks > 0 || times.size());
  R.sample(ctx(pd) + log);
  if (!checks && times.empty()) return;
  R.stat("times_stated", (double)times.size());
  R.stat("checksums_hold", checks - broken);
  R.stat("checksums_broken", broken);
  R.stat("checksums_zero", zero);
  R.stat("packets_skipped", dropped);
  std::string ref;
  for (auto &u : without) ref += u;
  writeAll(R.tmp + "/w.hmpg", all);
  writeAll(R.tmp + "/r.hmpg", ref);
  ht::Haptics a, b;
  bool ra = IOStream::readFile(R.tmp + "/w.hmpg", a), rb = IOStream::readFile(R.tmp + "/r.hmpg", b);
  VCHECK(ra == rb, "verdict", ctx(pd) << log << ": " << ra << " without the checksums " << rb);
  if (!ra || !rb) {
    R.stat("refused");
    return;
  }
  // the synchronisation points are those of the stream and the times stated
  auto syncs = [](ht::Haptics &x) {
    std::vector<std::array<uint64_t, 2>> v;
    for (int i = 0; i < (int)x.getSyncsSize(); i++) {
      auto &s = x.getSyncsAt(i);
      v.push_back({(uint64_t)(unsigned)s.getTimestamp(), s.getTimescaleOrDefault()});
    }
    return v;
  };
  auto sa = syncs(a), sb = syncs(b);
  sb.insert(sb.end(), times.begin(), times.end());
  std::sort(sa.begin(), sa.end());
  std::sort(sb.begin(), sb.end());
  VCHECK(sa == sb, "syncs", ctx(pd) << log << ": " << sa.size() << " want " << sb.size());
  auto rest = [](ht::Haptics &x) {
    Dump o;
    for (auto &kv : dumpHaptics(x))
      if (kv.first != "#syncs" && kv.first.rfind("s[", 0) != 0) o.insert(kv);
    return o;
  };
  compareDumps(rest(b), rest(a), [](const std::string &) { return 0.0; }, "checksum", ctx(pd) + log);
}

int main(int argc, char **argv) {
  Modes m;
  m["meta"] = {meta};
  m["effects"] = {effects};
  m["framing"] = {framing};
  m["stable"] = {stable};
  m["join"] = {join};
  m["hostile"] = {hostile};
  m["wavelet"] = {wavelet};
  m["layout"] = {layout};
  m["checksum"] = {checksum};
  return workerMain(argc, argv, m);
}
