// AES-128: key schedules, encryption and decryption agree with the standard.
#include "common.hpp"
static std::vector<block> gen_blocks(G &g, size_t n) {
	std::vector<block> v(n);
	if (n <= 4) for (auto &b : v) b = gen_block(g);
	else g.bytes(v.data(), n * 16);
	return v;
}
SUBCHECK(bulk, 120000, 2500000, "one key, 0..100 blocks encrypted in place and decrypted again, against OpenSSL; buffers exactly sized; non-trivial: at least 1 block") {
	block key = gen_block(g);
	size_t n = g.size(0, 100, {8, 16, 64});
	std::vector<block> in = gen_blocks(g, n);
	g.note("key %s, %zu blocks: %s", bs(key).c_str(), n, hex(in.data(), n * 16, 32).c_str());
	g.nontrivial(n > 0);
	emp::AES_KEY ek, dk, dk2;
	emp::AES_set_encrypt_key(key, &ek);
	emp::AES_set_decrypt_key(key, &dk);
	emp::AES_set_decrypt_key_fast(&dk2, &ek);
	Heap<block> b(n);
	AlignedBuf ab(n * 16, 0);
	if (n) { memcpy(b.p, in.data(), n * 16); memcpy(ab.p, in.data(), n * 16); }
	emp::AES_ecb_encrypt_blks(b.p, (unsigned)n, &ek);
	RefAES r(key);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(b[i], r.enc(in[i])), "block %zu encrypts to %s, expected %s", i, bs(b[i]).c_str(), bs(r.enc(in[i])).c_str());
	emp::AES_ecb_encrypt_blks((block *)ab.p, (unsigned)n, &ek);
	REQUIRE(ab.intact(), "wrote outside of the blocks");
	REQUIRE(n == 0 || memcmp(ab.p, b.p, n * 16) == 0, "a second encryption differs");
	emp::AES_ecb_decrypt_blks((block *)ab.p, (unsigned)n, g.coin() ? &dk : &dk2);
	REQUIRE(ab.intact(), "decryption wrote outside of the blocks");
	REQUIRE(n == 0 || memcmp(ab.p, in.data(), n * 16) == 0, "decryption does not undo encryption");
	for (size_t i = 0; i < n && i < 4; ++i) {  // decryption of arbitrary blocks
		block d = in[i];
		emp::AES_ecb_decrypt_blks(&d, 1, &dk);
		REQUIRE(same(d, r.dec(in[i])), "block %zu decrypts to %s", i, bs(d).c_str());
	}
}
template <int N> static void fixed(G &g) {
	block key = gen_block(g);
	std::vector<block> in = gen_blocks(g, N);
	g.note("%d blocks with key %s", N, bs(key).c_str());
	emp::AES_KEY ek;
	emp::AES_set_encrypt_key(key, &ek);
	Heap<block> b(N);
	memcpy(b.p, in.data(), N * 16);
	emp::AES_ecb_encrypt_blks<N>(b.p, &ek);
	RefAES r(key);
	for (int i = 0; i < N; ++i) REQUIRE(same(b[i], r.enc(in[i])), "block %d of %d", i, N);
}
SUBCHECK(fixed_size, 60000, 1000000, "the compile-time sized encryption for 1,2,3,4,5,7,8,9,16,31 blocks; all non-trivial") {
	g.nontrivial();
	switch (g.draw(9)) {
	case 0: fixed<1>(g); break; case 1: fixed<2>(g); break; case 2: fixed<3>(g); break; case 3: fixed<4>(g); break; case 4: fixed<5>(g); break;
	case 5: fixed<7>(g); break; case 6: fixed<8>(g); break; case 7: fixed<9>(g); break; case 8: fixed<16>(g); break; default: fixed<31>(g);
	}
}
template <int K, int H> static void para(G &g) {
	Heap<block> keys(K);
	Heap<emp::AES_KEY> ks(K);
	for (int i = 0; i < K; ++i) keys[i] = gen_block(g);
	if (g.chance(1, 6)) for (int i = 1; i < K; ++i) keys[i] = keys[0];
	std::vector<block> kk(keys.p, keys.p + K);
	std::vector<block> in = gen_blocks(g, K * H);
	g.note("%d keys x %d blocks; first key %s", K, H, bs(kk[0]).c_str());
	emp::AES_opt_key_schedule<K>(keys.p, ks.p);
	for (int i = 0; i < K; ++i) REQUIRE(same(keys[i], kk[i]), "key %d changed", i);
	Heap<block> b(K * H);
	memcpy(b.p, in.data(), K * H * 16);
	emp::ParaEnc<K, H>(b.p, ks.p);
	for (int i = 0; i < K; ++i) {
		RefAES r(kk[i]);
		for (int j = 0; j < H; ++j) REQUIRE(same(b[i * H + j], r.enc(in[i * H + j])), "key %d block %d: %s expected %s", i, j, bs(b[i * H + j]).c_str(), bs(r.enc(in[i * H + j])).c_str());
		// the batched schedule also serves the plain routines
		block one = in[i * H], want = r.enc(one);
		emp::AES_ecb_encrypt_blks(&one, 1, &ks[i]);
		REQUIRE(same(one, want), "schedule of key %d with the plain encryption", i);
		emp::AES_KEY dk;
		emp::AES_set_decrypt_key_fast(&dk, &ks[i]);
		emp::AES_ecb_decrypt_blks(&one, 1, &dk);
		REQUIRE(same(one, in[i * H]), "schedule of key %d for decryption", i);
	}
}
SUBCHECK(parallel, 120000, 2500000, "K keys scheduled together, H blocks each (K 1..8, 16; H 1..4, 8); all non-trivial") {
	g.nontrivial();
	switch (g.draw(12)) {
	case 0: para<1, 1>(g); break; case 1: para<2, 1>(g); break; case 2: para<2, 2>(g); break; case 3: para<4, 2>(g); break; case 4: para<8, 1>(g); break;
	case 5: para<8, 2>(g); break; case 6: para<3, 3>(g); break; case 7: para<5, 1>(g); break; case 8: para<7, 4>(g); break; case 9: para<16, 1>(g); break;
	case 10: para<1, 8>(g); break; case 11: para<6, 2>(g); break; default: para<4, 8>(g);
	}
}
SUBCHECK(bulk_large, 400, 6000, "one key, up to 200000 blocks in one call, encrypted in place and decrypted again, against OpenSSL; non-trivial: more than 4096 blocks", 60000) {
	block key = gen_block(g);
	size_t n = g.size(1000, 200000, {65536, 32768, 131072, 4096});
	std::vector<block> in(n), w(n);
	g.bytes(in.data(), n * 16);
	g.note("key %s, %zu blocks", bs(key).c_str(), n);
	g.nontrivial(n > 4096);
	emp::AES_KEY ek, dk;
	emp::AES_set_encrypt_key(key, &ek);
	emp::AES_set_decrypt_key(key, &dk);
	AlignedBuf ab(n * 16, 0);
	memcpy(ab.p, in.data(), n * 16);
	RefAES r(key);
	r.enc((unsigned char *)w.data(), (unsigned char *)in.data(), n);
	emp::AES_ecb_encrypt_blks((block *)ab.p, (unsigned)n, &ek);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(((block *)ab.p)[i], w[i]), "block %zu of %zu", i, n);
	REQUIRE(ab.intact(), "wrote outside of the blocks");
	emp::AES_ecb_decrypt_blks((block *)ab.p, (unsigned)n, &dk);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(((block *)ab.p)[i], in[i]), "decrypting block %zu of %zu", i, n);
	REQUIRE(ab.intact(), "decryption wrote outside of the blocks");
}
PBT_MAIN
