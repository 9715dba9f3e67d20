/* The key of an index in the tries over transactions and receipts: RLP of the minimal big endian number. */
#include "vp.h"
#include "vp_print.h"
#include "bytes.h"
bytes_t c4_eth_create_tx_path(uint32_t tx_index, buffer_t* buf);
#ifdef VP_NATIVE
#include "crypto.h"
bool secp256k1_recover(const bytes32_t digest, bytes_t signature, uint8_t* pubkey) { return false; }
int patricia_verify(uint8_t* r, bytes_t p, int x, bytes_t* v) { return 0; }
#endif
void h_path(void) {
  uint8_t  tmp[32], want[5], n = 0;
  uint32_t i = vp_draw_u32();
  buffer_t b = stack_buffer(tmp);
  if (i == 0) want[n++] = 0x80;
  else if (i < 0x80) want[n++] = (uint8_t) i;
  else {
    unsigned l = i < 0x100 ? 1 : (i < 0x10000 ? 2 : (i < 0x1000000 ? 3 : 4));
    want[n++] = (uint8_t) (0x80 + l);
    for (unsigned k = 0; k < 4; k++) if (k < l) want[n++] = (uint8_t) (i >> (8 * (l - 1 - k)));
  }
  bytes_t p = c4_eth_create_tx_path(i, &b);
  VP_CHECK(p.len == n, "length of the path");
  for (unsigned k = 0; k < 5; k++) VP_CHECK(k >= n || p.data[k] == want[k], "bytes of the path");
  VP_REACH(n == 4, "long path");
}
