// Stand-in for dr_wav.h (not present offline): the calls WavParser uses, for 8/16/24/32-bit PCM RIFF files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
typedef uint32_t drwav_bool32;
typedef uint64_t drwav_uint64;
typedef enum { drwav_container_riff, drwav_container_w64, drwav_container_rf64 } drwav_container;
#define DR_WAVE_FORMAT_PCM 0x1
struct drwav_data_format {
  drwav_container container;
  uint32_t format, channels, sampleRate, bitsPerSample;
};
struct drwav {
  uint32_t sampleRate;
  uint16_t channels, bitsPerSample;
  drwav_uint64 totalPCMFrameCount;
  FILE *file;
  bool writing;
  drwav_uint64 bytes;
};
inline drwav_bool32 drwav_init_file(drwav *w, const char *name, const void *) {
  memset(w, 0, sizeof *w);
  FILE *f = fopen(name, "rb");
  if (f == nullptr) return 0;
  unsigned char h[12], c[8], t[40];
  bool fmt = false;
  if (fread(h, 1, 12, f) == 12 && memcmp(h, "RIFF", 4) == 0 && memcmp(h + 8, "WAVE", 4) == 0)
    while (fread(c, 1, 8, f) == 8) {
      uint32_t n = c[4] | c[5] << 8 | c[6] << 16 | (uint32_t)c[7] << 24;
      if (memcmp(c, "fmt ", 4) == 0) {
        if (n < 16 || n > 40 || fread(t, 1, n, f) != n || (t[0] | t[1] << 8) != 1) break;
        w->channels = (uint16_t)(t[2] | t[3] << 8);
        w->sampleRate = t[4] | t[5] << 8 | t[6] << 16 | (uint32_t)t[7] << 24;
        w->bitsPerSample = (uint16_t)(t[14] | t[15] << 8);
        fmt = w->channels && w->sampleRate && w->bitsPerSample && w->bitsPerSample <= 32 && w->bitsPerSample % 8 == 0;
        if (!fmt) break;
      } else if (memcmp(c, "data", 4) == 0) {
        if (!fmt) break;
        long at = ftell(f);
        fseek(f, 0, SEEK_END);
        long left = ftell(f) - at;
        fseek(f, at, SEEK_SET);
        if ((long)n > left) n = (uint32_t)left;
        w->totalPCMFrameCount = n / (w->channels * (w->bitsPerSample / 8U));
        w->file = f;
        return 1;
      } else if (fseek(f, (long)n + (n & 1), SEEK_CUR) != 0) {
        break;
      }
    }
  fclose(f);
  return 0;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav *w, drwav_uint64 n, float *out) {
  uint32_t by = w->bitsPerSample / 8U;
  std::vector<unsigned char> b(n * w->channels * by);
  size_t got = b.empty() ? 0 : fread(b.data(), by, n * w->channels, w->file);
  for (size_t i = 0; i < got; i++) {
    uint32_t v = 0;
    for (uint32_t k = 0; k < by; k++) v |= (uint32_t)b[i * by + k] << (8 * (4 - by + k));
    out[i] = by == 1 ? (float)(b[i] / 255.0 * 2 - 1) : (float)((int32_t)v / 2147483648.0);
  }
  return got / w->channels;
}
inline void drwav_header_(drwav *w) {
  unsigned char h[44];
  auto p32 = [&](int at, uint32_t v) { for (int i = 0; i < 4; i++) h[at + i] = (unsigned char)(v >> (8 * i)); };
  uint32_t frame = w->channels * (w->bitsPerSample / 8U);
  memcpy(h, "RIFF    WAVEfmt ", 16);
  p32(4, (uint32_t)(36 + w->bytes));
  p32(16, 16);
  h[20] = 1, h[21] = 0, h[22] = (unsigned char)w->channels, h[23] = (unsigned char)(w->channels >> 8);
  p32(24, w->sampleRate);
  p32(28, w->sampleRate * frame);
  h[32] = (unsigned char)frame, h[33] = (unsigned char)(frame >> 8), h[34] = (unsigned char)w->bitsPerSample, h[35] = 0;
  memcpy(h + 36, "data", 4);
  p32(40, (uint32_t)w->bytes);
  fseek(w->file, 0, SEEK_SET);
  fwrite(h, 1, 44, w->file);
}
inline drwav_bool32 drwav_init_file_write(drwav *w, const char *name, const drwav_data_format *d, const void *) {
  memset(w, 0, sizeof *w);
  if (d->format != DR_WAVE_FORMAT_PCM || d->channels == 0 || d->bitsPerSample == 0) return 0;
  w->file = fopen(name, "wb");
  if (w->file == nullptr) return 0;
  w->writing = true;
  w->sampleRate = d->sampleRate;
  w->channels = (uint16_t)d->channels;
  w->bitsPerSample = (uint16_t)d->bitsPerSample;
  drwav_header_(w);
  return 1;
}
inline drwav_uint64 drwav_write_pcm_frames(drwav *w, drwav_uint64 n, const void *p) {
  uint32_t frame = w->channels * (w->bitsPerSample / 8U);
  size_t got = n ? fwrite(p, 1, n * frame, w->file) : 0;
  w->bytes += got;
  return got / frame;
}
inline uint32_t drwav_uninit(drwav *w) {
  if (w->file == nullptr) return 0;
  if (w->writing) drwav_header_(w);
  fclose(w->file);
  w->file = nullptr;
  return 0;
}
