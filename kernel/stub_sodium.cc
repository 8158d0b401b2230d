// Stands in for the entropy source and the keystream of libsodium, so that a harness decides every word
// the random kernels consume. Everything else still comes from libsodium.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <mutex>
#include <unistd.h>
#include <vector>

namespace {
std::mutex mu;
int mode = 0;  // 0: the scripted stream for every key; 1: words naming their key and position
std::vector<unsigned char> script, tail;
struct Use { uint64_t key, start, len; };
std::vector<Use> uses;
std::vector<uint64_t> entropy_calls;
uint64_t entropy_next = 1, reads = 0;

uint64_t key_id(const unsigned char* k) {
  uint64_t v = 0;
  std::memcpy(&v, k, 8);
  return v;
}

void stream(unsigned char* out, uint64_t start, uint64_t len, const unsigned char* key) {
  std::lock_guard<std::mutex> l(mu);
  if (mode == 0 && ++reads > 3000000) {
    std::fprintf(stderr, "the kernel goes on reading a finite keystream for ever\n");
    _exit(7);
  }
  uses.push_back({key_id(key), start, len});
  for (uint64_t i = 0; i < len; ++i) {
    uint64_t p = start + i;
    if (mode == 0) {
      out[i] = p < script.size() ? script[p] : tail.empty() ? 0 : tail[p % tail.size()];
    } else {
      uint64_t w = (key_id(key) << 40) | (p / 8);
      out[i] = (unsigned char)(w >> (8 * (p % 8)));
    }
  }
}
}  // namespace

extern "C" {
void ctl_script(const unsigned char* s, uint64_t n, const unsigned char* t, uint64_t m) {
  std::lock_guard<std::mutex> l(mu);
  mode = 0;
  reads = 0;
  script.assign(s, s + n);
  tail.assign(t, t + m);
}
void ctl_named() { mode = 1; }
void ctl_reset() { uses.clear(); entropy_calls.clear(); entropy_next = 1; }
uint64_t ctl_uses(uint64_t* out, uint64_t cap) {
  for (uint64_t i = 0; i < uses.size() && i < cap; ++i) { out[3 * i] = uses[i].key; out[3 * i + 1] = uses[i].start; out[3 * i + 2] = uses[i].len; }
  return uses.size();
}
uint64_t ctl_entropy(uint64_t* out, uint64_t cap) {
  for (uint64_t i = 0; i < entropy_calls.size() && i < cap; ++i) out[i] = entropy_calls[i];
  return entropy_calls.size();
}

void randombytes_buf(void* const buf, const size_t size) {
  std::lock_guard<std::mutex> l(mu);
  unsigned char* b = (unsigned char*)buf;
  entropy_calls.push_back(size);
  uint64_t v = entropy_next++;
  for (size_t i = 0; i < size; ++i) b[i] = i < 8 ? (unsigned char)(v >> (8 * i)) : 0;
}
void randombytes(unsigned char* const buf, const unsigned long long size) { randombytes_buf(buf, size); }
void randombytes_buf_deterministic(void* const buf, const size_t size, const unsigned char* seed) { stream((unsigned char*)buf, 0, size, seed); }
int crypto_stream_chacha20_ietf_xor_ic(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char*, uint32_t ic, const unsigned char* k) {
  std::vector<unsigned char> s(mlen);
  stream(s.data(), (uint64_t)ic * 64, mlen, k);
  for (unsigned long long i = 0; i < mlen; ++i) c[i] = m[i] ^ s[i];
  return 0;
}
int crypto_stream_chacha20_ietf_xor(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char* n, const unsigned char* k) {
  return crypto_stream_chacha20_ietf_xor_ic(c, m, mlen, n, 0, k);
}
int crypto_stream_chacha20_ietf(unsigned char* c, unsigned long long clen, const unsigned char*, const unsigned char* k) {
  stream(c, 0, clen, k);
  return 0;
}
}
