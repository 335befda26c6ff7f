// Stands in for the AES library, which is not here: a cipher that is easy to compute and
// shows every byte of the key, of the counter or chaining value and of the text.
#pragma once
#include <string.h>
typedef int AES_RETURN;
struct aes_encrypt_ctx { unsigned char key[16]; };
static inline AES_RETURN aes_init() { return 0; }
typedef void (*cbuf_inc)(unsigned char*);
static inline AES_RETURN aes_encrypt_key(const unsigned char* key, int len, aes_encrypt_ctx* c) {
    if (len != 16) return 1;
    memcpy(c->key, key, 16);
    return 0;
}
// counter mode: the key stream of a block is key + 5 * counter + place
static inline AES_RETURN aes_ctr_encrypt(const unsigned char* in, unsigned char* out, int n, unsigned char* cbuf, cbuf_inc inc, aes_encrypt_ctx* c) {
    for (int i = 0; i < n; i++) {
        out[i] = (unsigned char)(in[i] + c->key[i % 16] + 5 * cbuf[i % 16] + i % 16);
        if (i % 16 == 15) inc(cbuf);
    }
    return 0;
}
static inline AES_RETURN aes_ctr_decrypt(const unsigned char* in, unsigned char* out, int n, unsigned char* cbuf, cbuf_inc inc, aes_encrypt_ctx* c) {
    for (int i = 0; i < n; i++) {
        out[i] = (unsigned char)(in[i] - c->key[i % 16] - 5 * cbuf[i % 16] - i % 16);
        if (i % 16 == 15) inc(cbuf);
    }
    return 0;
}
// chaining: out = in + key + 5 * previous + place
static inline AES_RETURN aes_cbc_encrypt(const unsigned char* in, unsigned char* out, int n, unsigned char* iv, aes_encrypt_ctx* c) {
    if (n % 16) return 1;
    for (int i = 0; i < n; i++) iv[i % 16] = out[i] = (unsigned char)(in[i] + c->key[i % 16] + 5 * iv[i % 16] + i % 16);
    return 0;
}
static inline AES_RETURN aes_ecb_encrypt(const unsigned char* in, unsigned char* out, int n, aes_encrypt_ctx* c) {
    if (n % 16) return 1;
    for (int i = 0; i < n; i++) out[i] = (unsigned char)(in[i] + c->key[i % 16] + i % 16);
    return 0;
}
