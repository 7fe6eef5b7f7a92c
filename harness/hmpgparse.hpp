// An independent reader of HMPG bytes: framing, descriptions and effects, straight from the field layout.
#pragma once
#include "common.hpp"

namespace vf {
struct HmpgError {
  std::string key, detail;
};
struct BitIn {
  const std::string &s;
  size_t pos, end; // bits
  BitIn(const std::string &str, size_t b, size_t e) : s(str), pos(b), end(e) {}
  uint64_t u(int n) {
    if (pos + n > end) throw HmpgError{"field-past-end", "at bit " + std::to_string(pos)};
    uint64_t v = 0;
    for (int i = 0; i < n; i++, pos++) v = (v << 1) | ((uint64_t)((unsigned char)s[pos / 8] >> (7 - pos % 8)) & 1U);
    return v;
  }
  int64_t i(int n) {
    uint64_t v = u(n);
    return (v >> (n - 1)) & 1U ? (int64_t)v - ((int64_t)1 << n) : (int64_t)v;
  }
  std::string str(int lenBits = 8) {
    auto n = u(lenBits);
    std::string r;
    for (uint64_t k = 0; k < n; k++) r += (char)u(8);
    return r;
  }
  void skip(size_t n) {
    if (pos + n > end) throw HmpgError{"field-past-end", "at bit " + std::to_string(pos)};
    pos += n;
  }
  // nothing but zero padding up to the byte boundary is left
  void done(const char *what) {
    if (end - pos >= 8) throw HmpgError{std::string("length-mismatch:") + what, std::to_string(end - pos) + " bits left"};
    while (pos < end)
      if (u(1)) throw HmpgError{std::string("padding:") + what, "non-zero padding"};
  }
};
struct HBand {
  int id, perception, channel, type, effects;
};
struct HChannel {
  int id, perception, bands;
};
struct HPerception {
  int id, modality, library, channels, libraryRead = 0;
};
struct HDescription {
  int perceptions = -1, avatars = -1;
  uint64_t time = 0, timescale = 0;
  std::vector<HPerception> p;
  std::vector<HChannel> c;
  std::vector<HBand> b;
  HPerception *perc(int id) {
    for (auto &x : p)
      if (x.id == id) return &x;
    return nullptr;
  }
  HChannel *chan(int per, int id) {
    for (auto &x : c)
      if (x.id == id && x.perception == per) return &x;
    return nullptr;
  }
  HBand *band(int per, int chan, int id) {
    for (auto &x : b)
      if (x.id == id && x.perception == per && x.channel == chan) return &x;
    return nullptr;
  }
};
struct HEffect {
  int id, type;
  int64_t position; // absolute, ticks
  std::vector<int64_t> keyframes; // absolute times
  bool wavelet = false;
};
struct HData {
  bool dependent;
  int perception, channel, band;
  std::vector<HEffect> effects;
};
struct HUnit {
  int type, sync, layer;
  int64_t start, duration; // ticks
  size_t byteStart, byteEnd;
  std::vector<HData> data;
};
struct HStream {
  HDescription d;
  std::vector<HUnit> units;
  std::vector<std::string> initBodies; // description bytes of each initialization unit, time left out
};
enum { U_INIT = 0, U_TEMPORAL = 1, U_SPATIAL = 2, U_SILENT = 3 };

inline void parseEffect(BitIn &in, bool keyMask3) {
  in.u(16);
  int type = (int)in.u(2);
  if (in.u(1)) in.u(12);
  in.u(25);
  if (type == 0) {
    in.u(16);
    in.u(4);
  }
  int n = (int)in.u(16);
  for (int k = 0; k < n; k++) {
    int m = (int)in.u(3);
    if (m & 1) in.u(16);
    if (m & 2) in.u(8);
    if (m & 4) in.u(16);
  }
  int t = (int)in.u(16);
  for (int k = 0; k < t; k++) parseEffect(in, keyMask3);
}
inline HData parseData(BitIn in, HDescription &d, int64_t time) {
  HData r;
  r.dependent = in.u(1) == 1;
  r.perception = (int)in.u(8);
  r.channel = (int)in.u(16);
  r.band = (int)in.u(8);
  auto *p = d.perc(r.perception);
  auto *c = d.chan(r.perception, r.channel);
  auto *b = d.band(r.perception, r.channel, r.band);
  if (!p || !c || !b || b->perception != r.perception || b->channel != r.channel)
    throw HmpgError{"data-for-undeclared-band", "band " + std::to_string(r.band)};
  int n = (int)in.u(16);
  if (n == 0) throw HmpgError{"empty-data-packet", "band " + std::to_string(r.band)};
  for (int k = 0; k < n; k++) {
    HEffect e;
    e.id = (int)in.u(16);
    e.type = (int)in.u(2);
    if (b->type == 3) { // wavelet block
      e.wavelet = true;
      e.position = time;
      if (in.u(1)) in.u(12);
      auto sz = in.u(16);
      in.skip(sz * 8);
    } else {
      e.position = time + in.i(25);
      if (e.type == 0) {
        if (in.u(1)) in.u(12);
        int kf = (int)in.u(16);
        if (b->type == 2) {
          in.u(16);
          in.u(4);
        }
        if (kf == 0) throw HmpgError{"effect-without-keyframe", "band " + std::to_string(r.band)};
        for (int q = 0; q < kf; q++) {
          if (b->type == 2) {
            int m = (int)in.u(2);
            if (m & 1) in.u(8);
            e.keyframes.push_back(e.position + (int64_t)in.u(16));
            if (m & 2) in.u(16);
          } else {
            in.u(8);
            e.keyframes.push_back(e.position + (int64_t)in.u(16));
            if (b->type == 0) in.u(16);
          }
        }
      }
    }
    r.effects.push_back(e);
  }
  in.done("data");
  return r;
}
inline void parseInit(const std::string &s, size_t b, size_t e, HDescription &d, std::string &body) {
  BitIn u(s, b, e);
  bool first = true;
  std::string rest;
  while (u.pos < e) {
    size_t at = u.pos;
    int type = (int)u.u(6);
    size_t len = u.u(17);
    if (u.u(1)) throw HmpgError{"reserved-bit", "packet"};
    if (u.pos + len * 8 > e) throw HmpgError{"packet-past-unit", "type " + std::to_string(type)};
    BitIn in(s, u.pos, u.pos + len * 8);
    u.pos += len * 8;
    if (first != (type == 11)) throw HmpgError{"init-timing-not-first", "type " + std::to_string(type)};
    if (type != 11) body += s.substr(at / 8, u.pos / 8 - at / 8);
    first = false;
    switch (type) {
    case 11:
      d.time = in.u(32);
      d.timescale = in.u(32);
      in.u(24);
      in.u(24);
      in.u(1);
      in.done("init-timing");
      break;
    case 1: {
      if (d.perceptions >= 0) throw HmpgError{"metadata-twice", "haptics"};
      in.str();
      in.str();
      in.u(8);
      in.str();
      in.str();
      d.perceptions = (int)in.u(8);
      d.avatars = (int)in.u(8);
      for (int k = 0; k < d.avatars; k++) {
        in.u(8);
        in.u(8);
        if (in.u(8) == 0) in.str();
      }
      in.done("metadata-haptics");
      break;
    }
    case 2: {
      HPerception p{};
      p.id = (int)in.u(8);
      in.u(8);
      in.str();
      p.modality = (int)in.u(8);
      in.u(8);
      p.library = (int)in.u(16);
      if (in.u(1)) in.str();
      in.u(8);
      in.u(8);
      int n = (int)in.u(8);
      for (int k = 0; k < n; k++) {
        in.u(8);
        in.str();
        in.u(32);
        auto m = in.u(12);
        for (int q = 11; q >= 1; q--)
          if ((m >> q) & 1) in.u(32);
        if (m & 1) in.u(4);
      }
      p.channels = (int)in.u(16);
      in.done("metadata-perception");
      if (d.perc(p.id)) throw HmpgError{"perception-twice", std::to_string(p.id)};
      d.p.push_back(p);
      break;
    }
    case 6: {
      int id = (int)in.u(8);
      auto *p = d.perc(id);
      if (!p) throw HmpgError{"library-of-undeclared-perception", std::to_string(id)};
      int n = (int)in.u(16);
      for (int k = 0; k < n; k++) parseEffect(in, true);
      p->libraryRead += n;
      in.done("library");
      break;
    }
    case 3: {
      HChannel c{};
      c.id = (int)in.u(16);
      c.perception = (int)in.u(8);
      in.u(8);
      in.str();
      in.u(8);
      in.u(32);
      in.u(32);
      int m = (int)in.u(8);
      if (m & 1)
        in.u(32);
      else if (m & 2) {
        in.u(24);
        int n = (int)in.u(8);
        in.skip(8 * n);
        n = (int)in.u(8);
        in.skip(24 * n);
      }
      if (in.u(32)) in.u(32);
      if (m & 4) in.u(24);
      int v = (int)in.u(16);
      in.skip((size_t)v * 32);
      c.bands = (int)in.u(8);
      in.done("metadata-channel");
      if (!d.perc(c.perception)) throw HmpgError{"channel-of-undeclared-perception", std::to_string(c.perception)};
      if (d.chan(c.perception, c.id)) throw HmpgError{"channel-twice", std::to_string(c.id)};
      d.c.push_back(c);
      break;
    }
    case 4: {
      HBand x{};
      x.id = (int)in.u(8);
      x.perception = (int)in.u(8);
      x.channel = (int)in.u(16);
      in.u(8);
      x.type = (int)in.u(3);
      if (x.type == 1) in.u(4);
      if (x.type == 3) in.u(8);
      in.u(16);
      in.u(16);
      x.effects = (int)in.u(16);
      in.done("metadata-band");
      if (!d.chan(x.perception, x.channel)) throw HmpgError{"band-of-undeclared-channel", std::to_string(x.channel)};
      if (d.band(x.perception, x.channel, x.id)) throw HmpgError{"band-twice", std::to_string(x.id)};
      d.b.push_back(x);
      break;
    }
    default: throw HmpgError{"packet-type-in-init", std::to_string(type)};
    }
  }
  // the description is complete
  if (d.perceptions < 0) throw HmpgError{"no-metadata-haptics", ""};
  if (d.perceptions != (int)d.p.size()) throw HmpgError{"perception-count", std::to_string(d.perceptions)};
  for (auto &p : d.p) {
    int n = 0;
    for (auto &c : d.c) n += c.perception == p.id;
    if (n != p.channels) throw HmpgError{"channel-count", std::to_string(p.channels) + " declared, " + std::to_string(n) + " present"};
    if (p.library != p.libraryRead) throw HmpgError{"library-count", std::to_string(p.library)};
  }
  for (auto &c : d.c) {
    int n = 0;
    for (auto &x : d.b) n += x.channel == c.id && x.perception == c.perception;
    if (n != c.bands) throw HmpgError{"band-count", std::to_string(c.bands) + " declared, " + std::to_string(n) + " present"};
  }
}
inline HStream parseHmpg(const std::string &s) {
  HStream r;
  size_t end = s.size() * 8, at = 0;
  int64_t clock = 0;
  while (at < end) {
    BitIn h(s, at, end);
    HUnit u{};
    u.byteStart = at / 8;
    u.type = (int)h.u(6);
    u.sync = (int)h.u(2);
    u.layer = (int)h.u(4);
    u.duration = (int64_t)h.u(24);
    size_t len = h.u(32);
    if (h.u(4)) throw HmpgError{"reserved-bit", "unit"};
    if (h.pos + len * 8 > end) throw HmpgError{"unit-past-end", "unit " + std::to_string(r.units.size())};
    size_t ue = h.pos + len * 8;
    u.start = clock;
    std::string where = "unit " + std::to_string(r.units.size());
    if (r.units.empty() && u.type != U_INIT) throw HmpgError{"first-unit-not-initialization", ""};
    if (u.type == U_INIT) {
      HDescription d;
      std::string body;
      parseInit(s, h.pos, ue, d, body);
      if (u.duration != 0) throw HmpgError{"initialization-with-duration", where};
      if (u.sync != 0) throw HmpgError{"initialization-sync", where};
      if ((int64_t)d.time != clock) throw HmpgError{"initialization-time", where + " says " + std::to_string(d.time) + " at " + std::to_string(clock)};
      r.initBodies.push_back(body);
      if (r.initBodies.size() == 1) r.d = d;
      if (d.timescale != r.d.timescale) throw HmpgError{"initialization-timescale", where};
    } else if (u.type == U_SILENT) {
      if (len) throw HmpgError{"silent-unit-with-packets", where};
      if (u.duration == 0) throw HmpgError{"silent-unit-without-duration", where};
    } else if (u.type == U_TEMPORAL) {
      BitIn p(s, h.pos, ue);
      while (p.pos < ue) {
        int type = (int)p.u(6);
        size_t pl = p.u(17);
        if (p.u(1)) throw HmpgError{"reserved-bit", "packet"};
        if (p.pos + pl * 8 > ue) throw HmpgError{"packet-past-unit", where};
        if (type != 5) throw HmpgError{"packet-type-in-temporal", std::to_string(type)};
        u.data.push_back(parseData(BitIn(s, p.pos, p.pos + pl * 8), r.d, clock));
        p.pos += pl * 8;
      }
      if (u.data.empty()) throw HmpgError{"temporal-unit-without-data", where};
    } else
      throw HmpgError{"unit-type", where + " type " + std::to_string(u.type)};
    clock += u.duration;
    u.byteEnd = ue / 8;
    r.units.push_back(u);
    at = ue;
  }
  if (r.units.empty()) throw HmpgError{"empty-stream", ""};
  return r;
}
} // namespace vf
