From be01d125eacbe3234cde5249fe394458f8f42c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 01/32] fix: Hash::put absorbs buffered bytes before a large
 input

A put of HASH_BUFFER_SIZE bytes or more bypassed the buffer without
absorbing what was already in it, so the digest was that of a reordered
message.
---
 emp-tool/utils/hash.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..7ebb282 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,8 +23,11 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			EVP_DigestUpdate(mdctx, buffer, size);
+			size = 0;
 			EVP_DigestUpdate(mdctx, data, nbyte);
+		}
 		else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
-- 
2.43.0


From 3f90da9578e083360cfbd0c11ae502477156f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 02/32] fix: MemIO::clear also resets the read position

After clear() the channel kept the old read position, so data sent next
could not be received.
---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 89fa199e6c044c67c1c4f3d8f67a42e2014e94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 03/32] fix: MemIO receive past the end is an error

It printed a message and returned with the caller's buffer untouched, so
the caller went on with data that was never sent. NetIO already treats
this as fatal.
---
 emp-tool/io/mem_io_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index aa61624..0a10033 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -50,7 +50,7 @@ class MemIO: public IOChannel<MemIO> { public:
 			memcpy(data, buffer + read_pos, len);
 			read_pos += len;
 		} else {
-			fprintf(stderr,"error: mem_recv_data\n");
+			error("mem_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From 8e9e42b4dd34a2c0d91b17ff76101282de61fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 04/32] fix: FileIO reports end of file and write failure
 instead of spinning

fread and fwrite return 0 at end of file or on failure; the loops took
that for progress and never ended.
---
 emp-tool/io/file_io_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 173f78a..42b1a33 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,20 +38,20 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else
-				fprintf(stderr,"error: file_send_data %d\n", res);
+				error("file_send_data\n");
 		}
 	}
 	void recv_data_internal(void  * data, int len) {
 		int sent = 0;
 		while(sent < len) {
 			int res = fread(sent+(char*)data, 1, len-sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent+=res;
 			else 
-				fprintf(stderr,"error: file_recv_data %d\n", res);
+				error("file_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From d555355656301f2c3b2eec823863ae19b125d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 05/32] fix: HighSpeedNetIO reports a closed peer instead of
 spinning

Same as NetIO: a read or write that makes no progress is fatal.
---
 emp-tool/io/highspeed_net_io_channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..eb4872a 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -70,10 +70,10 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_send_data\n");
 		}
 	}
 };
@@ -113,10 +113,10 @@ class RecverSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fread(sent + (char *)data, 1, len - sent, stream);
-			if (res >= 0)
+			if (res > 0)
 				sent += res;
 			else
-				fprintf(stderr, "error: net_send_data %d\n", res);
+				error("net_recv_data\n");
 		}
 	}
 };
-- 
2.43.0


From 79e4bfcbaf25a04bbf37f7d275e1036b11081acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 06/32] fix: HighSpeedNetIO pads a flush with zeros, not with
 memory past its buffer

The padding was read from buf + ptr for a length unrelated to ptr, which
read beyond the allocation and sent the bytes to the peer.
---
 emp-tool/io/highspeed_net_io_channel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index eb4872a..afd7bba 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -48,8 +48,11 @@ class SenderSubChannel : public SubChannel { public:
 	void flush() {
 		flushes++;
 		send_data_raw(buf, ptr);
-		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+		if (counter % NETWORK_BUFFER_SIZE2 != 0) {
+			int pad = NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2;
+			memset(buf, 0, pad);
+			send_data_raw(buf, pad);
+		}
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From 288d940d3258af75793c14e42603088f44c416c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 07/32] fix: off by one in reversed to_bool and from_bool

Element 0 was never touched and one element past the array was.
---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 028d311a3e96558aaa78cdcb2a9d38948257dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 08/32] fix: BristolFashion::from_file resets the input and
 output counts

Loading a second circuit into the same object added its counts to those
of the first.
---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..71ec9f3 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -146,6 +146,7 @@ class BristolFashion { public:
 		int tmp;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d", &niov);
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
-- 
2.43.0


From 91f68e88053480c527775afb7ffd52f80b1db4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 09/32] fix: half-gates num_and counts the gates, not the keys
 scheduled ahead

Keys are scheduled four gates at a time, so the count was rounded up to
a multiple of four.
---
 emp-tool/gc/halfgate_eva.h | 2 +-
 emp-tool/gc/halfgate_gen.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..cd8df3f 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..e672509 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
-- 
2.43.0


From 5e6b54b168d95b5b7d5b26b087940c9685d33500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 10/32] fix: PRG::random_data_unaligned uses the same blocks at
 any alignment

A 16-byte request took one block from the stream when the buffer was
aligned and two when it was not, so everything drawn later from the same
seed depended on the address of the buffer.
---
 emp-tool/utils/prg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..063db83 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -103,7 +103,7 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + sizeof(block) - 1) / sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From 725d4fc68ac9b104da025b8e357030e437625ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 11/32] fix: PRG::reseed drops words buffered from the old seed

operator() went on returning up to 31 values of the previous seed.
---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 063db83..c41319a 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 3aa6fb8728c2ec1e67357dfe4783be5af3ee8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 12/32] fix: PRP constructed from key bytes uses them

The key schedule was left uninitialised.
---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From 57011042ac11fe74bd949b4b524d8eb4c84bc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 13/32] fix: MITCCRH renews its keys before a batch that would
 overrun them

Mixing batch widths could leave fewer than K keys unused; the hash then
read past the key schedule.
---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From 7ef417557f782f6c4d887b5362e58339e1438f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 14/32] fix: MITCCRH::setS takes effect at once

Keys already scheduled from the old start point stayed in use until the
batch was used up.
---
 emp-tool/utils/mitccrh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 0387765..66c3b27 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -20,6 +20,7 @@ class MITCCRH { public:
 
 	void setS(block sin) {
 		this->start_point = sin;
+		this->key_used = BatchSize;
 	}
 
 	void renew_ks(uint64_t gid) {
-- 
2.43.0


From 1f0e4f99b490f57691b9662f0720e28537baa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 15/32] fix: the encoding of send_bool does not depend on
 buffer alignment

Each side sent or expected an unpacked prefix whose length came from the
address of its own buffer, so peers with differently aligned buffers
misread each other. The packed path uses memcpy and needs no alignment.
---
 emp-tool/io/io_channel.h | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..bc71400 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -51,29 +51,11 @@ class IOChannel { public:
 	}	
 
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From 015c7957e46297d19f651d7d7fbdf7db769d2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:00 +0000
Subject: [PATCH 16/32] fix: an exported circuit outputs revealed constants

Revealing a public value recorded wire 0 as the output, so the exported
circuit computed the first input bit in its place.
---
 emp-tool/execution/plain_prot.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..fb12a5a 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -9,6 +9,8 @@ using std::fstream;
 namespace emp {
 class PlainProt: public ProtocolExecution { 
 public:
+	//entries of output_vec that are constants instead of wires
+	enum : int64_t { PUBLIC_ONE = -1, PUBLIC_ZERO = -2 };
 	int64_t n1 = 0, n2 = 0, n3 = 0;
 
 	bool print;
@@ -46,7 +48,10 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
+			if(cast_circ_exec->is_public(label[i], party))
+				output_vec.push_back(cast_circ_exec->get_value(label[i]) ? PUBLIC_ONE : PUBLIC_ZERO);
+			else
+				output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
 		}
 		n3+=length;
@@ -64,7 +69,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if(v == PlainProt::PUBLIC_ONE)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v == PlainProt::PUBLIC_ZERO ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From 0162a70644ed776fed421e955b2beeef94489c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:00 +0000
Subject: [PATCH 17/32] fix: AES-CTR counter carries beyond 64 bits

The start chunk and the public-IV block counter were added to the low 64
bits only, so blocks after a wrap disagreed with AES-CTR and with the
other overloads.
---
 emp-tool/circuits/aes_128_ctr.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..cf319a7 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -43,6 +43,9 @@ int aes_128_ctr(const __m128i key,
 		for(size_t i = 0; i < 8; ++i) {
 			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
 		}
+		if (count < start_chunk) { // carry into the upper half
+			for(int i = 7; i >= 0 && ++((uint8_t *)(&counter))[i] == 0; --i);
+		}
 	}
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
@@ -214,11 +217,15 @@ class AES_128_CTR_Calculator { public:
 			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
 		}
 		count += start_chunk;
+		bool carry = count < start_chunk; // into the upper half
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
 			for(size_t j = 0; j < 8; ++j) {
 				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
 			}
+			if (carry) {
+				for(int j = 7; j >= 0 && ++((uint8_t *)(&counter))[j] == 0; --j);
+			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -230,6 +237,7 @@ class AES_128_CTR_Calculator { public:
 				return answer;
 			}
 			++count;
+			carry = (count == 0);
 		}
 
 		return 0;
-- 
2.43.0


From b3e1487e40d122a757dbf73dff741b0e895c6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:00 +0000
Subject: [PATCH 18/32] fix: NetIO keeps received data when a send follows a
 partial receive

Both directions shared one stdio stream; the first write after a read
threw away input that had been buffered but not yet consumed.
---
 emp-tool/io/net_io_channel.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..12b603e 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -24,7 +24,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	int mysocket = -1;
 	int consocket = -1;
 	FILE * stream = nullptr;
+	FILE * recv_stream = nullptr;
 	char * buffer = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -78,10 +80,15 @@ class NetIO: public IOChannel<NetIO> { public:
 			}
 		}
 		set_nodelay();
-		stream = fdopen(consocket, "wb+");
+		// One stream per direction: writing to a stream discards what it has
+		// read ahead.
+		stream = fdopen(consocket, "wb");
+		recv_stream = fdopen(dup(consocket), "rb");
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +108,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +145,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From effa07efdad0677d2dda3ce4bedf92cd983298a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:42 +0000
Subject: [PATCH 19/32] fix: Integer::modExp computes products at twice the
 width

Residues below the modulus have products of up to twice its length. At
the operand width these overflowed for most moduli that the stated limit
on q allows, and the result was wrong.
---
 emp-tool/circuits/integer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emp-tool/circuits/integer.hpp b/emp-tool/circuits/integer.hpp
index ebff9ba..0d24951 100644
--- a/emp-tool/circuits/integer.hpp
+++ b/emp-tool/circuits/integer.hpp
@@ -427,12 +427,15 @@ inline Integer Integer::hamming_weight() const {
 }
 inline Integer Integer::modExp(Integer p, Integer q) {
 	// the value of q should be less than half of the MAX_INT
+	// products are computed at twice the width, where they cannot overflow
 	Integer base = *this;
-	Integer res(size(),1);
+	base.resize(2*size());
+	q.resize(2*size());
+	Integer res(2*size(),1);
 	for(size_t i = 0; i < p.size(); ++i) {
 		Integer tmp = (res * base) % q;
 		res = res.select(p[i], tmp);
 		base = (base*base) % q; 
 	}
-	return res;
+	return res.resize(size());
 }
-- 
2.43.0


From 192d2c6303f9e39588f844e2bae58fd39e97d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:02 +0000
Subject: [PATCH 20/32] fix: privacy-free evaluation uses the whole garbled row

table is a block reference, so table[0] was its low 64 bits, broadcast to
both halves: the output label of an AND gate whose left input is 1 was wrong.
---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From 38623c0ea9e51eeac9e0848eac07af4131e5661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:35 +0000
Subject: [PATCH 21/32] fix: channels report a send that fails after filling
 the buffer

---
 emp-tool/io/file_io_channel.h          | 3 ++-
 emp-tool/io/highspeed_net_io_channel.h | 3 ++-
 emp-tool/io/net_io_channel.h           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 42b1a33..b21987a 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -38,7 +38,8 @@ class FileIO: public IOChannel<FileIO> { public:
 		int sent = 0;
 		while(sent < len) {
 			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
-			if (res > 0)
+			// a short count with the error set: the buffered bytes are lost
+			if (res > 0 && !ferror(stream))
 				sent+=res;
 			else
 				error("file_send_data\n");
diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index afd7bba..bb8c9b7 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -73,7 +73,8 @@ class SenderSubChannel : public SubChannel { public:
 		int sent = 0;
 		while (sent < len) {
 			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
-			if (res > 0)
+			// a short count with the error set: the buffered bytes are lost
+			if (res > 0 && !ferror(stream))
 				sent += res;
 			else
 				error("net_send_data\n");
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 12b603e..fce5f00 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -131,7 +131,8 @@ class NetIO: public IOChannel<NetIO> { public:
 		size_t sent = 0;
 		while(sent < len) {
 			size_t res = fwrite(sent + (char*)data, 1, len - sent, stream);
-			if (res > 0)
+			// a short count with the error set: the buffered bytes are lost
+			if (res > 0 && !ferror(stream))
 				sent+=res;
 			else
 				error("net_send_data\n");
-- 
2.43.0


From 7a94e8cbe4e8a2dd0b56a7e58300a7e7a37cec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:18 +0000
Subject: [PATCH 22/32] fix: a failed flush of a channel is an error

---
 emp-tool/io/file_io_channel.h          | 5 +++--
 emp-tool/io/highspeed_net_io_channel.h | 3 ++-
 emp-tool/io/net_io_channel.h           | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index b21987a..f6af76f 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -21,13 +21,14 @@ class FileIO: public IOChannel<FileIO> { public:
 	}
 
 	~FileIO(){
-		fflush(stream);
+		flush();
 		fclose(stream);
 		delete[] buffer;
 	}
 
 	void flush() {
-		fflush(stream);
+		if(fflush(stream) != 0)
+			error("file_flush\n");
 	}
 
 	void reset() {
diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index bb8c9b7..4cc193e 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -53,7 +53,8 @@ class SenderSubChannel : public SubChannel { public:
 			memset(buf, 0, pad);
 			send_data_raw(buf, pad);
 		}
-		fflush(stream);
+		if(fflush(stream) != 0)
+			error("net_flush\n");
 		ptr = 0;
 	}
 
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index fce5f00..9c3682a 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -124,7 +124,8 @@ class NetIO: public IOChannel<NetIO> { public:
 	}
 
 	void flush() {
-		fflush(stream);
+		if(fflush(stream) != 0)
+			error("net_flush\n");
 	}
 
 	void send_data_internal(const void * data, size_t len) {
@@ -142,7 +143,7 @@ class NetIO: public IOChannel<NetIO> { public:
 
 	void recv_data_internal(void  * data, size_t len) {
 		if(has_sent)
-			fflush(stream);
+			flush();
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-- 
2.43.0


From d9218ca34171cdb99e76938c5b0e238ea0187913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:54 +0000
Subject: [PATCH 23/32] fix: file channel transfers messages of 2^31 bytes and
 more

---
 emp-tool/io/file_io_channel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index f6af76f..7e379e6 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -34,11 +34,11 @@ class FileIO: public IOChannel<FileIO> { public:
 	void reset() {
 		rewind(stream);
 	}
-	void send_data_internal(const void * data, int len) {
+	void send_data_internal(const void * data, size_t len) {
 		bytes_sent += len;
-		int sent = 0;
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fwrite(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fwrite(sent+(char*)data, 1, len-sent, stream);
 			// a short count with the error set: the buffered bytes are lost
 			if (res > 0 && !ferror(stream))
 				sent+=res;
@@ -46,10 +46,10 @@ class FileIO: public IOChannel<FileIO> { public:
 				error("file_send_data\n");
 		}
 	}
-	void recv_data_internal(void  * data, int len) {
-		int sent = 0;
+	void recv_data_internal(void  * data, size_t len) {
+		size_t sent = 0;
 		while(sent < len) {
-			int res = fread(sent+(char*)data, 1, len-sent, stream);
+			size_t res = fread(sent+(char*)data, 1, len-sent, stream);
 			if (res > 0)
 				sent+=res;
 			else 
-- 
2.43.0


From 61a6022c7094d850cef6f1e3f1e78eb38bb68efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:54 +0000
Subject: [PATCH 24/32] fix: HighSpeedNetIO transfers messages of 2^31 bytes
 and more

---
 emp-tool/io/highspeed_net_io_channel.h | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4cc193e..093054a 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -58,8 +58,8 @@ class SenderSubChannel : public SubChannel { public:
 		ptr = 0;
 	}
 
-	void send_data(const void *data, int len) {
-		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
+	void send_data(const void *data, size_t len) {
+		if (len <= size_t(NETWORK_BUFFER_SIZE2 - ptr)) {
 			memcpy(buf + ptr, data, len);
 			ptr += len;
 		} else {
@@ -69,11 +69,11 @@ class SenderSubChannel : public SubChannel { public:
 		}
 	}
 
-	void send_data_raw(const void *data, int len) {
+	void send_data_raw(const void *data, size_t len) {
 		counter += len;
-		int sent = 0;
+		size_t sent = 0;
 		while (sent < len) {
-			int res = fwrite(sent + (char *)data, 1, len - sent, stream);
+			size_t res = fwrite(sent + (char *)data, 1, len - sent, stream);
 			// a short count with the error set: the buffered bytes are lost
 			if (res > 0 && !ferror(stream))
 				sent += res;
@@ -90,18 +90,18 @@ class RecverSubChannel : public SubChannel { public:
 		ptr = NETWORK_BUFFER_SIZE2;
 	}
 
-	void recv_data(void *data, int len) {
-		if (len <= NETWORK_BUFFER_SIZE2 - ptr) {
+	void recv_data(void *data, size_t len) {
+		if (len <= size_t(NETWORK_BUFFER_SIZE2 - ptr)) {
 			memcpy(data, buf + ptr, len);
 			ptr += len;
 		} else {
-			int remain = len;
+			size_t remain = len;
 			memcpy(data, buf + ptr, NETWORK_BUFFER_SIZE2 - ptr);
 			remain -= NETWORK_BUFFER_SIZE2 - ptr;
 
 			while (true) {
 				recv_data_raw(buf, NETWORK_BUFFER_SIZE2);
-				if (remain <= NETWORK_BUFFER_SIZE2) {
+				if (remain <= size_t(NETWORK_BUFFER_SIZE2)) {
 					memcpy(len - remain + (char *)data, buf, remain);
 					ptr = remain;
 					break;
@@ -113,11 +113,11 @@ class RecverSubChannel : public SubChannel { public:
 		}
 	}
 
-	void recv_data_raw(void *data, int len) {
+	void recv_data_raw(void *data, size_t len) {
 		counter += len;
-		int sent = 0;
+		size_t sent = 0;
 		while (sent < len) {
-			int res = fread(sent + (char *)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char *)data, 1, len - sent, stream);
 			if (res > 0)
 				sent += res;
 			else
@@ -237,7 +237,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 0;
 	}
 
-	void send_data_internal(const void *data, int len) {
+	void send_data_internal(const void *data, size_t len) {
 		if (FSM == 1) {
 			rchannel->flush();
 		}
@@ -245,7 +245,7 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		FSM = 2;
 	}
 
-	void recv_data_internal(void *data, int len) {
+	void recv_data_internal(void *data, size_t len) {
 		if (FSM == 2) {
 			schannel->flush();
 		}
-- 
2.43.0


From 7cff2dee62c8fc4f55010ee1d818d4e575b72e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:37 +0000
Subject: [PATCH 25/32] fix: HighSpeedNetIO closes its sockets once

The stream objects close the sockets; closing the numbers again could hit a
descriptor another thread has opened in between.
---
 emp-tool/io/highspeed_net_io_channel.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 093054a..6c0322c 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -208,10 +208,9 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 			std::cout << "Data Received: \t" << rchannel->counter << "\n";
 			std::cout << "Flushes:\t" << schannel->flushes << "\t" << rchannel->flushes << "\n";
 		}
+		// closes the sockets as well
 		delete schannel;
 		delete rchannel;
-		close(send_sock);
-		close(recv_sock);
 	}
 
 	void sync() {}
-- 
2.43.0


From e0c87d1b636a5214a6eaa7a6045f6152543fb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:10 +0000
Subject: [PATCH 26/32] fix: Hash::put takes the length as size_t

put_block of 2^27 blocks or more overflowed the int length and crashed.
---
 emp-tool/utils/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 7ebb282..a19a0c3 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -22,7 +22,7 @@ class Hash { public:
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-	void put(const void * data, int nbyte) {
+	void put(const void * data, size_t nbyte) {
 		if (nbyte >= HASH_BUFFER_SIZE) {
 			EVP_DigestUpdate(mdctx, buffer, size);
 			size = 0;
-- 
2.43.0


From 213af13cf9fa5aa29a4f8b65e02520458872ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:22 +0000
Subject: [PATCH 27/32] fix: aes_128_ctr encrypts messages of 2^31 bytes and
 more

EVP_EncryptUpdate takes an int length: such messages crashed or were encrypted
only in part.
---
 emp-tool/circuits/aes_128_ctr.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index cf319a7..3c7d2c8 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -8,6 +8,7 @@
 #include "emp-tool/circuits/integer.h"
 #include "emp-tool/circuits/circuit_file.h"
 #include <stdio.h>
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -77,15 +78,20 @@ int aes_128_ctr(const __m128i key,
 	}
 	// Provide the message to be encrypted, and obtain the encrypted output.
 	// EVP_EncryptUpdate can be called multiple times if necessary
-	if(1 != EVP_EncryptUpdate(ctx, (unsigned char *) output, &len, (unsigned char *) input, num_bytes)) {
-		std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
-		EVP_CIPHER_CTX_free(ctx);
-		return -3;
+	// (which takes its length as an int)
+	size_t ciphertext_len = 0;
+	while (ciphertext_len < num_bytes) {
+		const int part = (int) std::min(num_bytes - ciphertext_len, (size_t) 1 << 30);
+		if(1 != EVP_EncryptUpdate(ctx, ((unsigned char *) output) + ciphertext_len, &len, ((unsigned char *) input) + ciphertext_len, part)) {
+			std::cerr<< "EVP_EncryptUpdate gave something besides 1\n"<<std::flush;
+			EVP_CIPHER_CTX_free(ctx);
+			return -3;
+		}
+		ciphertext_len += len;
 	}
-	size_t ciphertext_len = len;
 	// Finalise the encryption. Further ciphertext bytes may be written at
 	// this stage.
-	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + len, &len)) {
+	if(1 != EVP_EncryptFinal_ex(ctx, ((unsigned char *) output) + ciphertext_len, &len)) {
 		std::cerr<< "EVP_EncryptFinal gave something besides 1\n"<<std::flush;
 		EVP_CIPHER_CTX_free(ctx);
 		return -4;
-- 
2.43.0


From 296a1a24c2013b2bd7d2f9f9f9e75c305da86250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 28/32] fix: keep the AES-CTR key stream of a long message off
 the stack

A public-key encryption of 2^26 bits and more inside a circuit overflowed it.
---
 emp-tool/circuits/aes_128_ctr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 3c7d2c8..9b6f01a 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <fstream>
 #include <memory>
+#include <vector>
 
 #include <openssl/evp.h>
 #include <stdlib.h>
@@ -261,12 +262,12 @@ class AES_128_CTR_Calculator { public:
 			return -1;
 		}
 
-		uint8_t bytes[(length + 7) / 8];
-		int success = emp::aes_128_ctr(key, iv, (uint8_t *) nullptr, bytes, (length + 7) / 8, start_chunk);
+		std::vector<uint8_t> bytes(length / 8 + 1);
+		int success = emp::aes_128_ctr(key, iv, (uint8_t *) nullptr, bytes.data(), (length + 7) / 8, start_chunk);
 		if (success != 0) {
 			return success;
 		}
-		emp::Integer blind = emp::Integer(length, bytes, party);
+		emp::Integer blind = emp::Integer(length, bytes.data(), party);
 
 		if (input == nullptr) {
 			for(size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 53c25dafd91f04048a76e9c1f73e472da235bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:47 +0000
Subject: [PATCH 29/32] fix: copying a Hash no longer makes both copies free
 one context

---
 emp-tool/utils/hash.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index a19a0c3..a5f0540 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -19,6 +19,17 @@ class Hash { public:
 		if(1 != EVP_DigestInit_ex(mdctx, EVP_sha256(), NULL))
 			error("Hash function setup error!");
 	}
+	Hash(const Hash & other): Hash() {
+		*this = other;
+	}
+	Hash & operator=(const Hash & other) {
+		if(this == &other) return *this;
+		if(1 != EVP_MD_CTX_copy_ex(mdctx, other.mdctx))
+			error("Hash function copy error!");
+		memcpy(buffer, other.buffer, other.size);
+		size = other.size;
+		return *this;
+	}
 	~Hash() {
 		EVP_MD_CTX_destroy(mdctx);
 	}
-- 
2.43.0


From 99f1c8e4b0a6781cbf2353f35aba3dbf437d93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:47 +0000
Subject: [PATCH 30/32] fix: an IO channel cannot be copied, which freed its
 buffer and closed its stream twice

---
 emp-tool/io/file_io_channel.h          | 2 ++
 emp-tool/io/highspeed_net_io_channel.h | 4 ++++
 emp-tool/io/mem_io_channel.h           | 2 ++
 emp-tool/io/net_io_channel.h           | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/emp-tool/io/file_io_channel.h b/emp-tool/io/file_io_channel.h
index 7e379e6..4ec441e 100644
--- a/emp-tool/io/file_io_channel.h
+++ b/emp-tool/io/file_io_channel.h
@@ -20,6 +20,8 @@ class FileIO: public IOChannel<FileIO> { public:
 		setvbuf(stream, buffer, _IOFBF, FILE_BUFFER_SIZE);
 	}
 
+	FileIO(const FileIO &) = delete;
+	FileIO & operator=(const FileIO &) = delete;
 	~FileIO(){
 		flush();
 		fclose(stream);
diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 6c0322c..75fb53c 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -35,6 +35,8 @@ class SubChannel { public:
 		memset(stream_buf, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, stream_buf, _IOFBF, NETWORK_BUFFER_SIZE);
 	}
+	SubChannel(const SubChannel &) = delete;
+	SubChannel & operator=(const SubChannel &) = delete;
 	~SubChannel() {
 		fclose(stream);
 		delete[] stream_buf;
@@ -201,6 +203,8 @@ class HighSpeedNetIO : public IOChannel<HighSpeedNetIO> { public:
 		return sock;
 	}
 
+	HighSpeedNetIO(const HighSpeedNetIO &) = delete;
+	HighSpeedNetIO & operator=(const HighSpeedNetIO &) = delete;
 	~HighSpeedNetIO() {
 		flush();
 		if (not quiet) {
diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 0a10033..cc5cab6 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -17,6 +17,8 @@ class MemIO: public IOChannel<MemIO> { public:
 		buffer = new char[cap];
 		size = 0;
 	}
+	MemIO(const MemIO &) = delete;
+	MemIO & operator=(const MemIO &) = delete;
 	~MemIO() {
 		if(buffer!=nullptr)
 			delete[] buffer;
diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 9c3682a..83dbb35 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -105,6 +105,8 @@ class NetIO: public IOChannel<NetIO> { public:
 		}
 	}
 
+	NetIO(const NetIO &) = delete;
+	NetIO & operator=(const NetIO &) = delete;
 	~NetIO(){
 		flush();
 		fclose(stream);
-- 
2.43.0


From dc30722bdabb9c2db92327019533df4637332feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:47 +0000
Subject: [PATCH 31/32] fix: a Group cannot be copied, which freed its curve
 and scratch space twice

---
 emp-tool/utils/group.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/group.h b/emp-tool/utils/group.h
index 410356e..e02ffc2 100644
--- a/emp-tool/utils/group.h
+++ b/emp-tool/utils/group.h
@@ -60,6 +60,8 @@ class Group { public:
 	unsigned char * scratch;
 	size_t scratch_size = 256;
 	Group();
+	Group(const Group &) = delete;
+	Group & operator=(const Group &) = delete;
 	~Group();
 	void resize_scratch(size_t size);
 	void get_rand_bn(BigInt & n);
-- 
2.43.0


From 1995a92b666c25276d4745a9a1514f2e944fca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:47 +0000
Subject: [PATCH 32/32] fix: no coefficients are written when none are asked
 for

---
 emp-tool/utils/f2k.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/f2k.h b/emp-tool/utils/f2k.h
index 4819b0e..283f078 100644
--- a/emp-tool/utils/f2k.h
+++ b/emp-tool/utils/f2k.h
@@ -167,6 +167,7 @@ inline void vector_inn_prdt_sum_no_red(block *res, const block *a, const block *
 /* coefficients of almost universal hash function */
 inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
 	// Handle the case with small `sz`
+	if(sz < 1) return;
 	coeff[0] = seed;
 	if(sz == 1) return;
 
-- 
2.43.0

