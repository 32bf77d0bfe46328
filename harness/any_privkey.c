/* stands in for the arithmetic consistency check of a parsed private key: accepts or rejects */
#include <stdint.h>
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t vp_concretize(uint64_t v);
struct mbedtls_rsa_context;
int mbedtls_rsa_check_privkey(const struct mbedtls_rsa_context* ctx)
{
    (void)ctx;
    return vp_concretize(vp_range("consistent", 0, 1)) ? 0 : -0x4200;
}
