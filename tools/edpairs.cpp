// authoring tool: finds pairs of valid ed25519 points whose encodings differ in exactly one byte
#include <initializer_list>
#include <sodium.h>
#include <cstdio>
#include <cstring>
int main() {
  if (sodium_init() < 0) return 1;
  printf("static const uint8_t ed_pairs[32][2][32] = {\n");
  unsigned char seed[32] = {7}, u[64], p[32];
  for (int j = 0; j < 32; j++) {
    for (;;) {
      crypto_generichash(u, 32, seed, 32, nullptr, 0);
      memcpy(seed, u, 32);
      crypto_core_ed25519_from_uniform(p, u);
      unsigned char q[32];
      bool ok = false;
      for (int d = 1; d < 256 && !ok; d++) {
        memcpy(q, p, 32);
        q[j] ^= d;
        ok = crypto_core_ed25519_is_valid_point(q) == 1;
      }
      if (ok && crypto_core_ed25519_is_valid_point(p) == 1) {
        for (auto x : {p, q}) { printf(x == p ? " {{" : "  {"); for (int i = 0; i < 32; i++) printf("%d,", x[i]); printf(x == p ? "},\n" : "}},\n"); }
        break;
      }
    }
  }
  printf("};\n");
}
