From b52182c9d6f174e9e78e3609a518a06de6d96238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:42 +0000
Subject: [PATCH 01/20] hook: CRYPTOKIT_SIM seam for RDRAND and CPUID in
 stubs-rng.c (off by default)

---
 src/stubs-rng.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/stubs-rng.c b/src/stubs-rng.c
index 251786c..de21b28 100644
--- a/src/stubs-rng.c
+++ b/src/stubs-rng.c
@@ -122,6 +122,13 @@ CAMLprim value caml_system_rng_random_bytes(value vhc, value str,
 #include <stdint.h>
 #include <string.h>
 
+#ifdef CRYPTOKIT_SIM
+/* Simulation builds only: the simulator plays the CPU. */
+extern int sim_rdrand64(uint64_t * res);
+extern int sim_get_cpuid(unsigned int leaf, unsigned int * a, unsigned int * b,
+                         unsigned int * c, unsigned int * d);
+#endif
+
 static inline int rdrand64(uint64_t * res)
 {
   uint64_t n;
@@ -129,7 +136,11 @@ static inline int rdrand64(uint64_t * res)
   int retries;
 
   for (retries = 0; retries < 20; retries++) {
+#ifdef CRYPTOKIT_SIM
+    ok = sim_rdrand64(&n);
+#else
     __asm__ __volatile__ ("rdrand %0; setc %1" : "=r" (n), "=qm" (ok));
+#endif
     if (ok) { *res = n; return 1; }
   }
   return 0;
@@ -140,9 +151,13 @@ CAMLprim value caml_hardware_rng_available(value unit)
   uint32_t ax, bx, cx, dx;
   uint64_t n;
   int retries;
+#ifdef CRYPTOKIT_SIM
+  sim_get_cpuid(1, &ax, &bx, &cx, &dx);
+#else
   __asm__ __volatile__ ("cpuid"
                         : "=a" (ax), "=b" (bx), "=c" (cx), "=d" (dx)
                         : "a" (1));
+#endif
   if ((cx & (1U << 30)) == 0) return Val_false;
   /* Early AMD Ryzen 3000 processors have a most annoying bug:
      the rdrand instruction always returns 0xFF....FF.
-- 
2.43.0


From dd7421276f6fa17677312c9d18b47ee55332bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 02/20] fix: register the SipHash key as a GC root while
 allocating the context

caml_alloc_string can trigger a minor collection that moves the key;
the context was then initialized from the old location.
---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 89c5143c11eb7806497c6c7854d0d8dd34c49efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:08 +0000
Subject: [PATCH 03/20] fix: register the GHASH key as a GC root while
 allocating the context

Without PCLMUL, caml_alloc_custom can trigger a minor collection that
moves the key before ghash_init reads it: AES-GCM tags were then wrong.
---
 src/stubs-ghash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
-- 
2.43.0


From 7f025cf12ad046ccd3fb48ff45502a7dd98e0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:19 +0000
Subject: [PATCH 04/20] fix: hash_size of SHA-224 is 28 and of RIPEMD-160 is 20

hash_size must be the length of the returned hash value; transform_then_hash
and transform_and_hash also return it as tag_size.
---
 src/cryptokit.ml  | 4 ++--
 src/cryptokit.mli | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
diff --git a/src/cryptokit.mli b/src/cryptokit.mli
index 666731a..568e194 100644
--- a/src/cryptokit.mli
+++ b/src/cryptokit.mli
@@ -735,7 +735,7 @@ module Hash : sig
         bits.  It must be one of 224, 256, 384 or 512. *)
 
   val sha224: unit -> hash
-    (** SHA-224 is SHA-2 specialized to 224 bit hashes (24 bytes). *)
+    (** SHA-224 is SHA-2 specialized to 224 bit hashes (28 bytes). *)
 
   val sha256: unit -> hash
     (** SHA-256 is SHA-2 specialized to 256 bit hashes (32 bytes). *)
-- 
2.43.0


From 8ccfb8fbfc22b195e74102c00ba910257c6d1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/20] fix: flushing a compression transform twice in a row is
 not an error

deflate() answers Z_BUF_ERROR when there is nothing left to flush;
it is not fatal and must not be reported as Compression_error.
---
 src/stubs-zlib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..323e2d0 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,9 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR: nothing to do, e.g. flushing twice.  Not an error. */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 67b63fb39a879cc8abe3c019d600b8bc94ed7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:37 +0000
Subject: [PATCH 06/20] fix: check the range given to put_substring in Zlib
 transforms

The range was passed unchecked to zlib, which read out of bounds.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..4055fa5 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2522,6 +2522,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2577,6 +2579,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From 77e26ec30773ab63699626c7d4ca6b3b641dcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:37 +0000
Subject: [PATCH 07/20] fix: flush of a decompression transform makes all
 output available

When the output buffer is full, inflate() consumes its whole input but
keeps part of the output.  flush did nothing, so this output remained
unavailable until more input came or finish was called.
---
 src/cryptokit.ml | 17 +++++++++++++++--
 src/stubs-zlib.c |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 4055fa5..64bf44b 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2604,7 +2604,15 @@ class uncompress expect_zlib_header =
 
     method put_byte b = self#put_char (Char.chr b)
 
-    method flush = ()
+    method flush =
+      self#ensure_capacity 256;
+      let (_, _, used_out) =
+         inflate zs
+                 (Bytes.unsafe_of_string "") 0 0
+                 obuf oend (Bytes.length obuf - oend)
+                 Z_SYNC_FLUSH in
+      oend <- oend + used_out;
+      if oend = Bytes.length obuf then self#flush
 
     method finish =
       let rec do_finish first_finish =
@@ -2615,7 +2623,12 @@ class uncompress expect_zlib_header =
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish false in
+        if not finished then begin
+          if used_out = 0 && not first_finish then
+            raise(Error(Compression_error("Zlib.inflate",
+               "unexpected end of compressed data")));
+          do_finish false
+        end in
       do_finish true; inflate_end zs
 
     method wipe =
diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 323e2d0..f7bf90f 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -157,7 +157,8 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0 || retcode == Z_NEED_DICT)
+  /* Z_BUF_ERROR: no progress was possible.  The caller knows what it means. */
+  if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
-- 
2.43.0


From 1c01259b2335952012b27f1122eb0f8ab289e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:16 +0000
Subject: [PATCH 08/20] fix: release and erase the internal state of zlib
 streams

The finalizer freed the z_stream but not the state allocated by zlib:
every compression or decompression abandoned, failed or wiped before the
end leaked it (up to 256 Kb), with the data it contains.  wipe did not
erase it either.  Also, the finalizer freed an uninitialized pointer if
caml_stat_alloc raised Out_of_memory.
---
 src/cryptokit.ml |  3 +++
 src/stubs-zlib.c | 70 +++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 64bf44b..d64c25f 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2511,6 +2511,7 @@ external inflate:
          -> bool * int * int
   = "caml_zlib_inflate_bytecode" "caml_zlib_inflate"
 external inflate_end: stream -> unit = "caml_zlib_inflateEnd"
+external zlib_wipe: stream -> unit = "caml_zlib_wipe"
 
 class compress level write_zlib_header =
   object(self)
@@ -2564,6 +2565,7 @@ class compress level write_zlib_header =
       if finished then deflate_end zs else self#finish
 
     method wipe =
+      zlib_wipe zs;
       output_buffer#wipe
 end
 
@@ -2632,6 +2634,7 @@ class uncompress expect_zlib_header =
       do_finish true; inflate_end zs
 
     method wipe =
+      zlib_wipe zs;
       output_buffer#wipe
 end
 
diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index f7bf90f..f1d706b 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -17,6 +17,7 @@
 #include <zlib.h>
 #endif
 
+#include <string.h>
 #include <caml/mlvalues.h>
 #include <caml/alloc.h>
 #include <caml/callback.h>
@@ -55,33 +56,74 @@ static void caml_zlib_error(char * fn, value vzs)
   caml_raise(bucket);
 }
 
+/* A zlib stream and the function that releases its internal state */
+struct caml_zlib_stream {
+  z_stream zs;                  /* must come first */
+  int (*end)(z_streamp);
+};
+
+/* Memory allocation for the internal state of zlib.  The state contains
+   recent input or output data: erase it before freeing. */
+
+#define ZLIB_HEADER_SIZE 16
+
+static voidpf caml_zlib_alloc(voidpf opaque, uInt items, uInt size)
+{
+  size_t len = (size_t) items * size;
+  char * p = caml_stat_alloc_noexc(ZLIB_HEADER_SIZE + len);
+  if (p == NULL) return Z_NULL;
+  *((size_t *) p) = len;
+  return p + ZLIB_HEADER_SIZE;
+}
+
+static void caml_zlib_free(voidpf opaque, voidpf addr)
+{
+  char * p = (char *) addr - ZLIB_HEADER_SIZE;
+  memset(addr, 0, *((size_t *) p));
+  caml_stat_free(p);
+}
+
 void caml_zlib_free_stream(value vzs)
 {
-  caml_stat_free(ZStream_val(vzs));
-  ZStream_val(vzs) = NULL;
+  struct caml_zlib_stream * s = (struct caml_zlib_stream *) ZStream_val(vzs);
+  if (s != NULL) {
+    if (s->zs.state != Z_NULL) s->end(&s->zs);
+    caml_stat_free(s);
+    ZStream_val(vzs) = NULL;
+  }
 }
 
 static struct custom_operations caml_zlib_stream_ops = {
   "caml_zlib_stream_ops", &caml_zlib_free_stream, NULL, NULL, NULL, NULL
 };
 
-static value caml_zlib_new_stream(void)
+static value caml_zlib_new_stream(int (*end)(z_streamp))
 {
   value res = caml_alloc_custom(&caml_zlib_stream_ops, sizeof(z_streamp), 0, 1);
-
-  ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
-  ZStream_val(res)->zalloc = NULL;
-  ZStream_val(res)->zfree = NULL;
-  ZStream_val(res)->opaque = NULL;
-  ZStream_val(res)->next_in = NULL;
-  ZStream_val(res)->next_out = NULL;
+  struct caml_zlib_stream * s;
+
+  ZStream_val(res) = NULL;      /* in case caml_stat_alloc raises */
+  s = caml_stat_alloc(sizeof(struct caml_zlib_stream));
+  memset(s, 0, sizeof(struct caml_zlib_stream));
+  s->zs.zalloc = caml_zlib_alloc;
+  s->zs.zfree = caml_zlib_free;
+  s->end = end;
+  ZStream_val(res) = &s->zs;
   return res;
 }
 
+CAMLprim
+value caml_zlib_wipe(value vzs)
+{
+  struct caml_zlib_stream * s = (struct caml_zlib_stream *) ZStream_val(vzs);
+  if (s->zs.state != Z_NULL) s->end(&s->zs);
+  return Val_unit;
+}
+
 CAMLprim
 value caml_zlib_deflateInit(value vlevel, value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&deflateEnd);
   if (deflateInit2(ZStream_val(vzs),
                    Int_val(vlevel),
                    Z_DEFLATED,
@@ -135,7 +177,7 @@ value caml_zlib_deflateEnd(value vzs)
 CAMLprim
 value caml_zlib_inflateInit(value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&inflateEnd);
   if (inflateInit2(ZStream_val(vzs),
                    Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
     caml_zlib_error("Zlib.inflateInit", vzs);
@@ -223,6 +265,10 @@ CAMLprim
 value caml_zlib_inflateEnd(value vzs)
 { caml_zlib_not_supported(); return Val_unit; }
 
+CAMLprim
+value caml_zlib_wipe(value vzs)
+{ caml_zlib_not_supported(); return Val_unit; }
+
 #endif
 
 CAMLprim
-- 
2.43.0


From c34d96414b81a0d8d03ef97ac11173c5bd774da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 09/20] fix: conversion of big integers to byte strings of any
 length

Z.to_bits pads its result to a multiple of 8 bytes.  Bn.to_bytes raised
Invalid_argument when the requested length is not a multiple of 8, e.g.
in RSA.new_key 1000, DH.new_parameters 1000 or Paillier.new_key 96.
---
 src/cryptokitBignum.ml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..0cc7d27 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,8 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* [s] may have leading zeros making it longer than [l] *)
+  for i = 0 to min l (String.length s) - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From b41d6f1d187e8bbfe91b3f142066838503e5e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 10/20] fix: check offsets in Block.cbc_encrypt#transform

The source offset was passed to the unchecked xor_bytes primitive,
which then read out of bounds.
---
 src/cryptokit.ml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index d64c25f..fbb0fef 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,9 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      || dst_off < 0 || dst_off > Bytes.length dst - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From ac988550927b30cba347fe1dc2d2d18a374e3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:03 +0000
Subject: [PATCH 11/20] fix: erase the key and counter when wiping an AES-CTR
 pseudo-RNG

The expanded key remained in memory after wipe.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index fbb0fef..07e1237 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1946,7 +1946,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From a33fc471e2f727d00c28db0c3f0d004d0c81aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 12/20] fix: erase the whole state of AES-GCM transforms when
 wiping them

The hash key H, the counter, the encrypted initial counter, the running MAC
and the last key stream block remained in memory after wipe.
---
 src/cryptokit.ml  |  9 +++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 07e1237..1cef2c8 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1639,7 +1640,9 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h; wipe_bytes ctr; wipe_bytes e0;
+        wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1690,7 +1693,9 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h; wipe_bytes ctr; wipe_bytes e0;
+        wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 08b7aaa..2d75c82 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -65,3 +65,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From 5859babcde8ae56585f8a3f890ca654e6770e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 13/20] fix: also erase the checksum and counters of wiped zlib
 streams

---
 src/stubs-zlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index f1d706b..1c56386 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -117,6 +117,7 @@ value caml_zlib_wipe(value vzs)
 {
   struct caml_zlib_stream * s = (struct caml_zlib_stream *) ZStream_val(vzs);
   if (s->zs.state != Z_NULL) s->end(&s->zs);
+  memset(&s->zs, 0, sizeof(z_stream));
   return Val_unit;
 }
 
-- 
2.43.0


From c7f1f27b9327ac4421b5be0473f510542270a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:24 +0000
Subject: [PATCH 14/20] fix: modular exponentiation with a zero exponent
 (Paillier encryption of 0)

---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 0cc7d27..ea2ed48 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+(* [Z.powm_sec] rejects zero exponents *)
+let mod_power a b c =
+  if Z.sign b = 0 then Z.rem Z.one c else Z.powm_sec a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From 2595cb719902dc5a8999c4db0896ad39771d825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:54 +0000
Subject: [PATCH 15/20] fix: stream cipher put_substring checks its range
 before growing the output buffer

---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 1cef2c8..5361b58 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1046,6 +1046,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 28f286a01a169a9553c36d87fc10c6f4109a4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:59 +0000
Subject: [PATCH 16/20] fix: uncompress no longer completes a truncated stream
 with a dummy byte

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 5361b58..890313b 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2631,7 +2631,7 @@ class uncompress expect_zlib_header =
         self#ensure_capacity 256;
         let (finished, _, used_out) =
            inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
+                   (Bytes.unsafe_of_string "") 0 0
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-- 
2.43.0


From eb628d1957d9c74a7c6f6e87528ae2e8e2bb1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:00 +0000
Subject: [PATCH 17/20] fix: Zlib transforms accept inputs of 4 Gb and more in
 one call

---
 src/stubs-zlib.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 1c56386..54cb6ef 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -135,6 +135,15 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
   return vzs;
 }
 
+/* zlib counts available bytes in an unsigned int.  Longer ranges are
+   processed in several calls. */
+
+static uInt caml_zlib_avail(value vlen)
+{
+  intnat len = Long_val(vlen);
+  return len < 0x40000000 ? len : 0x40000000;
+}
+
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
@@ -145,19 +154,20 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt avail_in = caml_zlib_avail(srclen), avail_out = caml_zlib_avail(dstlen);
   long used_in, used_out;
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR: nothing to do, e.g. flushing twice.  Not an error. */
   if (retcode < 0 && retcode != Z_BUF_ERROR)
     caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -192,19 +202,20 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
 {
   z_stream * zs = ZStream_val(vzs);
   int retcode;
+  uInt avail_in = caml_zlib_avail(srclen), avail_out = caml_zlib_avail(dstlen);
   long used_in, used_out;
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = avail_in;
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = avail_out;
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR: no progress was possible.  The caller knows what it means. */
   if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = avail_in - zs->avail_in;
+  used_out = avail_out - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0


From 3e555c73ffded2533e4914eabaa619bf3cfa2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:18 +0000
Subject: [PATCH 18/20] fix: MD5 accepts inputs of 4 Gb and more in one call

---
 src/stubs-md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..7434eef 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -30,7 +30,7 @@ struct MD5Context {
 
 CAMLextern void caml_MD5Init (struct MD5Context *context);
 CAMLextern void caml_MD5Update (struct MD5Context *context,
-                           unsigned char *buf, unsigned len);
+                           unsigned char *buf, uintnat len);
 CAMLextern void caml_MD5Final (unsigned char *digest, struct MD5Context *ctx);
 
 #define Context_val(v) ((struct MD5Context *) String_val(v))
-- 
2.43.0


From d5a0e9590696702368f9ae13a1fccfda3e826fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:09 +0000
Subject: [PATCH 19/20] fix: refuse invalid ranges before changing any state

put_substring and add_substring of block ciphers, MACs, Base64 and Hexa
processed part of the data before raising Invalid_argument, or ignored the
call altogether when len < 0 or ofs + len overflows; random_bytes of the
AES-CTR generator likewise.  The transform methods of CFB decryption and
OFB advanced their state before refusing a bad offset.
---
 src/cryptokit.ml | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 890313b..c8b42fc 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -710,6 +710,9 @@ class cfb_decrypt ?iv:iv_init chunksize (cipher : block_cipher) =
     val out = Bytes.create blocksize
     method blocksize = chunksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - chunksize
+      || dst_off < 0 || dst_off > Bytes.length dst - chunksize
+      then invalid_arg "cfb_decrypt#transform";
       cipher#transform iv 0 out 0;
       Bytes.blit iv chunksize iv 0 (blocksize - chunksize);
       Bytes.blit src src_off iv (blocksize - chunksize) chunksize;
@@ -728,6 +731,9 @@ class ofb ?iv:iv_init chunksize (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = chunksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - chunksize
+      || dst_off < 0 || dst_off > Bytes.length dst - chunksize
+      then invalid_arg "ofb#transform";
       cipher#transform iv 0 iv 0;
       Bytes.blit src src_off dst dst_off chunksize;
       xor_bytes iv 0 dst dst_off chunksize
@@ -783,7 +789,9 @@ class cipher (cipher : block_cipher) =
     method output_block_size = blocksize
 
     method put_substring src ofs len =
-      if len <= 0 then () else
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Block.cipher#put_substring";
+      if len = 0 then () else
       if used + len <= blocksize then begin
         (* Just accumulate len characters in ibuf *)
         Bytes.blit src ofs ibuf used len;
@@ -887,6 +895,8 @@ class mac ?iv:iv_init ?(pad: Padding.scheme option) (cipher : block_cipher) =
     method hash_size = blocksize
 
     method add_substring src src_ofs len =
+      if len < 0 || src_ofs < 0 || src_ofs > Bytes.length src - len
+      then invalid_arg "Block.mac#add_substring";
       let rec add src_ofs len =
         if len <= 0 then () else
         if used + len <= blocksize then begin
@@ -1860,6 +1870,8 @@ class device_rng filename =
   object(self)
     val fd = Unix.openfile filename [Unix.O_RDONLY; Unix.O_CLOEXEC] 0
     method random_bytes buf ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length buf - len
+      then invalid_arg "device_rng#random_bytes";
       if len > 0 then begin    
         let n = Unix.read fd buf ofs len in
         if n = 0 then raise(Error Entropy_source_closed);
@@ -1937,6 +1949,8 @@ class pseudo_rng_aes_ctr seed =
     val mutable opos = 16
 
     method random_bytes buf ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length buf - len
+      then invalid_arg "pseudo_rng_aes_ctr#random_bytes";
       if len > 0 then begin
         if opos >= 16 then begin
           (* Encrypt the counter *)
@@ -2287,6 +2301,8 @@ class encode multiline padding =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2376,6 +2392,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2430,6 +2448,8 @@ class encode =
     method put_char c = self#put_byte (Char.code c)
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2475,6 +2495,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
-- 
2.43.0


From 45c0aa7124db8565ca39a1d4fd070e187f338833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:18 +0000
Subject: [PATCH 20/20] fix: counter mode refuses an exhausted counter before
 producing output

Block.ctr#transform stored the (re)used key stream in the destination
before raising Message_too_long.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index c8b42fc..f77aa5c 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -762,12 +762,12 @@ class ctr ?iv:iv_init ?inc (cipher : block_cipher) =
       if nincr < 8 then Int64.(shift_left 1L (nincr * 8)) else 0L
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      let m = Int64.pred max_transf in
+      if m = 0L then raise (Error Message_too_long);
       cipher#transform iv 0 out 0;
       Bytes.blit src src_off dst dst_off blocksize;
       xor_bytes out 0 dst dst_off blocksize;
       increment_counter iv (blocksize - nincr) (blocksize - 1);
-      let m = Int64.pred max_transf in
-      if m = 0L then raise (Error Message_too_long);
       max_transf <- m
     method wipe =
       cipher#wipe;
-- 
2.43.0

