#include "bytes.h"
#include "sha2.h"
#include "sha3.h"
void sha256(bytes_t data, uint8_t* out) { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, data.data, data.len); sha256_Final(&c, out); }
void keccak(bytes_t data, uint8_t* out) { SHA3_CTX c; sha3_256_Init(&c); sha3_Update(&c, data.data, data.len); keccak_Final(&c, out); }
void sha256_merkle(bytes_t a, bytes_t b, uint8_t* out) { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, a.data, a.len); sha256_Update(&c, b.data, b.len); sha256_Final(&c, out); }
