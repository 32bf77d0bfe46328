/* stands in for the arithmetic consistency check of a parsed private key: accepts every key */
struct mbedtls_rsa_context;
int mbedtls_rsa_check_privkey(const struct mbedtls_rsa_context* ctx)
{
    (void)ctx;
    return 0;
}
