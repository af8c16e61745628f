From 3422ffdc60c9e767fe0ada83788720e8126bc78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 01/83] Add verification entry points behind cfg(laya_verif)

---
 src/http.rs |  5 +++++
 src/lib.rs  | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/http.rs b/src/http.rs
index 70d55f7..4af628c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -99,6 +99,11 @@ fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     Ok(ImageRequest::new(identifier, region, size, rotation, quality, format))
 }
 
+#[cfg(laya_verif)]
+pub fn verif_decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
+    decode_image_request(path)
+}
+
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum ImageRequestError {
     /// If the URI did not contain an expected element.
diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..f4c3315 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(unused)]
+#![allow(unexpected_cfgs)] // cfg(laya_verif): see `verif`
 
 #[cfg(not(target_os = "linux"))]
 compile_error!("Laya requires a Linux kernel >= 5.8");
@@ -138,6 +139,36 @@ mod hyper_compat {
     }
 }
 
+/// Entry points for the verification harness, absent from ordinary builds.
+#[cfg(laya_verif)]
+pub mod verif {
+    use std::io;
+    use std::net::SocketAddr;
+    use std::path::Path;
+    use std::sync::Arc;
+
+    use hyper::service::service_fn;
+
+    pub use crate::http::{verif_decode_image_request as decode_image_request, ImageRequestError};
+    pub use crate::iiif::parse::ParseError;
+    pub use crate::iiif::{Format, ImageRequest, Quality, Region, Rotation, Scale, Size};
+
+    /// Serves the images below `root` on the current executor.
+    pub async fn serve(
+        addr: SocketAddr,
+        root: Box<Path>,
+        max_connections: usize,
+    ) -> io::Result<()> {
+        let images = Arc::new(crate::resolve::DiskImageSource::new(root));
+        crate::hyper_compat::serve_http2(
+            addr,
+            service_fn(move |req| crate::http::handle_request(req, images.clone())),
+            max_connections,
+        )
+        .await
+    }
+}
+
 use std::path::Path;
 use std::sync::Arc;
 
-- 
2.43.0


From 952f3aa1041781111bf2849fa0f604bd41fbb11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 02/83] fix: refuse region percentages that are not finite

`pct:inf,...` and numbers too large for a float were accepted as a region of infinite size.
---
 src/iiif/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ce16b44..ad4c9b2 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -58,7 +58,7 @@ trait SpatialSelector: Copy + Default + FromStr + ToString {
 impl SpatialSelector for f32 {
     fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
-        if value > 0.0 {
+        if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
             Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
-- 
2.43.0


From 478266ae2a0c7c54d542699d9c3d2776596fdaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 03/83] fix: refuse size percentages that are not finite

`^pct:inf` and `^pct:1e39` were accepted as an infinite scale.
---
 src/iiif/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ad4c9b2..41409e1 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -142,7 +142,7 @@ fn parse_scale_percent(s: &str, upscale: bool) -> Result<Size, ParseError> {
 
     // Image API 3.0, s 4: Size ... parameters in percentages ... must be positive
     // Image API 3.0, s 4.2: n must not be greater than 100 [unless explicitly upscaling].
-    if scale > 0.0 && (scale <= 100.0 || upscale) {
+    if scale > 0.0 && scale.is_finite() && (scale <= 100.0 || upscale) {
         Ok(Size { upscale, scale: Scale::Percentage(scale) })
     } else {
         Err(ParseError::SizePercentageOutOfBounds(s.into()))
-- 
2.43.0


From 6c48988afef99bed352e5dbc94d813af4084f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 04/83] fix: skip the leading slash of a request path in
 release builds too

The segment before the first slash was consumed inside debug_assert!, so that release builds
took it for the identifier and rejected every image request.
---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 4af628c..0d97c3a 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let root = segments.next();
+    debug_assert!(root.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From 2dac6052ecfc6d5d2bc90e9d0a4e097ccca6cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 05/83] fix: keep identifiers inside the image directory

Identifiers come percent-decoded from the client: `..%2F..%2Fetc%2Fpasswd` and
`%2Fetc%2Fpasswd` were joined to the image directory and opened, an empty identifier opened the
directory itself, and one containing NUL panicked in glommio, ending the shard.
---
 src/resolve.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..bcb0b97 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,7 +16,21 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        if !is_contained(ident) {
+            return Err(io::Error::from(io::ErrorKind::InvalidInput).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
 }
+
+/// Whether an identifier names something below the directory it will be resolved in.
+fn is_contained(ident: &str) -> bool {
+    let path = Path::new(ident);
+    !ident.contains('\0')
+        && path.file_name().is_some()
+        && path
+            .components()
+            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+}
-- 
2.43.0


From b008aee41ad1bb1fe94c00e3e73dddea28a190e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 06/83] fix: answer image information requests with 501 instead
 of panicking

Any GET for a path ending in info.json ran into unimplemented!(), which unwinds through the
executor and ends the shard.
---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 0d97c3a..62d0f59 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -143,7 +143,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO: Image API 3.0, s 5
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("Image information requests are not supported."))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From 13040a85266f16f379a457d67d4ced9ca71642ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 07/83] fix: keep serving after a failed accept

An error from accept (ECONNABORTED, EMFILE, ...) or from asking a just-closed connection for its
address ended the accept loop, and with it the shard.
---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4c3315..e3383df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,7 @@ mod hyper_compat {
     use std::pin::Pin;
     use std::rc::Rc;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use std::{io, slice};
 
     use futures_lite::{AsyncRead, AsyncWrite, Future};
@@ -26,6 +27,8 @@ mod hyper_compat {
     use hyper::{Error, Request, Response};
     use hyper_util::server::conn::auto::Builder as ServerBuilder;
 
+    const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
     #[derive(Clone)]
     struct HyperExecutor;
 
@@ -120,11 +123,12 @@ mod hyper_compat {
         let conn_control = Rc::new(Semaphore::new(max_connections as _));
         loop {
             match listener.accept().await {
-                Err(x) => {
-                    return Err(x.into());
+                Err(_) => {
+                    // A client that is gone again or a lack of descriptors must not end the server,
+                    // but the latter needs time to pass.
+                    glommio::timer::sleep(ACCEPT_RETRY_DELAY).await;
                 }
                 Ok(stream) => {
-                    stream.local_addr()?;
                     let io = HyperStream(stream);
 
                     glommio::spawn_local(enclose! { (service, conn_control) async move {
-- 
2.43.0


From 782bc9c99924a7d325059676982ef996c637f69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 08/83] fix: seek custom streams through their seek callback

Stream::seek used a relative seek, which calls the skip callback of a custom
stream (with a negative count when seeking back) instead of its seek callback.
---
 openjp2-rs/src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..67df84b 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -433,8 +433,10 @@ impl Stream {
     }
 
     pub fn seek(&mut self, offset: i64) -> std::io::Result<()> {
-        let res = self.m_inner.seek_relative(offset - self.m_byte_offset);
-        match res {
+        if offset < 0 {
+            return Err(IoError::other(format!("Can't seek to {offset}")));
+        }
+        match self.m_inner.seek(SeekFrom::Start(offset as u64)) {
             Ok(_) => {
                 self.m_byte_offset = offset;
                 log::trace!("-- seek({offset}) = Ok");
-- 
2.43.0


From 83d2233be004593da0830db340d4472d534e567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 09/83] fix: support the RPCL progression when encoding

ProgressionOrder lacked RPCL, so encoding with this progression order hit an
assertion.
---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..dfee6ec 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -168,6 +168,7 @@ pub(crate) enum ProgressionOrder {
     PCRL,
     RLCP,
     LRCP,
+    RPCL,
 }
 
 impl ProgressionOrder {
@@ -177,6 +178,7 @@ impl ProgressionOrder {
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
             OPJ_LRCP => Self::LRCP,
+            OPJ_RPCL => Self::RPCL,
             _ => Self::Unknown,
         }
     }
@@ -188,6 +190,7 @@ impl ProgressionOrder {
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::Unknown => &[],
         }
     }
@@ -198,6 +201,7 @@ impl ProgressionOrder {
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
+            Self::RPCL => "RPCL",
             Self::Unknown => "",
         }
     }
-- 
2.43.0


From 26f096ecf03da365aaf53348d980b291f3b53ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 10/83] fix: copy tiles of images with sub-sampled components
 correctly

The width of an image component was computed as the rounded-up quotient of the
image's extent, which is wrong when the image's origin is not a multiple of the
sub-sampling factor; tiles without a sample in some or all components panicked.
---
 openjp2-rs/src/j2k.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index dfee6ec..db61e1d 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12217,7 +12217,8 @@ pub(crate) fn opj_j2k_encode(
                 j += 1;
             }
             l_current_tile_size = opj_tcd_get_encoder_input_buffer_size(&mut *p_j2k.m_tcd);
-            if l_reuse_data == 0 {
+            // a tile in which no component has a sample has no data
+            if l_reuse_data == 0 && l_current_tile_size > 0 {
                 if l_current_tile_size > l_max_tile_size {
                     let mut l_new_current_data =
                         opj_realloc(l_current_data as *mut core::ffi::c_void, l_current_tile_size)
@@ -12232,12 +12233,6 @@ pub(crate) fn opj_j2k_encode(
                     l_current_data = l_new_current_data;
                     l_max_tile_size = l_current_tile_size
                 }
-                if l_current_data.is_null() {
-                    // Should not happen in practice, but will avoid Coverity to
-                    // complain about a null pointer dereference
-                    panic!("");
-                    // C: assert(0);
-                }
                 // copy image data (32 bit) to l_current_data as contiguous, all-component, zero
                 // offset buffer
                 // 32 bit components @ 8 bit precision get converted to 8 bit
@@ -12402,7 +12397,7 @@ fn opj_get_tile_dimensions(
         *l_height = (l_tilec.y1 - l_tilec.y0) as OPJ_UINT32;
         *l_offset_x = opj_uint_ceildiv(l_image.x0, l_img_comp.dx);
         *l_offset_y = opj_uint_ceildiv(l_image.y0, l_img_comp.dy);
-        *l_image_width = opj_uint_ceildiv(l_image.x1 - l_image.x0, l_img_comp.dx);
+        *l_image_width = opj_uint_ceildiv(l_image.x1, l_img_comp.dx).wrapping_sub(*l_offset_x);
         *l_stride = (*l_image_width).wrapping_sub(*l_width);
         *l_tile_offset = (l_tilec.x0 as OPJ_UINT32)
             .wrapping_sub(*l_offset_x)
@@ -12447,6 +12442,9 @@ fn opj_j2k_get_tile_data(mut p_tcd: &mut opj_tcd_t, mut p_data: &mut [u8]) {
             let l_width = l_width as usize;
             let l_stride = l_stride as usize;
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_ptr, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 068c8e9bad238a0b6b8cc3568b8d2fdcc39c23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 11/83] fix: do not transform empty resolutions when encoding

The vertical 5/3 pass read and wrote outside its buffer for an empty resolution
with an odd origin.
---
 openjp2-rs/src/dwt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..a546d88 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1201,6 +1201,10 @@ unsafe fn opj_dwt_encode_procedure(
         let mut cas_row: OPJ_INT32 = 0;
         rw = ((*l_cur_res).x1 - (*l_cur_res).x0) as OPJ_UINT32;
         rh = ((*l_cur_res).y1 - (*l_cur_res).y0) as OPJ_UINT32;
+        if rw == 0 || rh == 0 {
+            // this resolution and all lower ones are empty
+            break;
+        }
         cas_row = (*l_cur_res).x0 & 1i32;
         cas_col = (*l_cur_res).y0 & 1i32;
         // Perform vertical pass
-- 
2.43.0


From c3624950cdaf14ce759a972479c7abede16bd8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 12/83] fix: keep the sign of signed samples when encoding
 several tiles

opj_tcd_copy_tile_data zero-extended signed 8 and 16 bit samples.
---
 openjp2-rs/src/tcd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..2cdc619 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2881,7 +2881,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
-                            *dest = *src as OPJ_INT32;
+                            *dest = *src as i8 as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
@@ -2894,7 +2894,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem * 2);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-                            *dest = u16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
+                            *dest = i16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-- 
2.43.0


From 40049e68a7bcd3269a014cbe8460e599d4a81df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 13/83] fix: split tile-parts where asked, not always at the
 first level

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index db61e1d..f238514 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -896,6 +896,7 @@ fn opj_j2k_get_num_tp(
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
                     break;
                 }
+                i += 1;
             }
         } else {
             tpnum = 1 as OPJ_UINT32
-- 
2.43.0


From 0e98292c271b6474c843d2de4746e4e8694e7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 14/83] fix: take the progression changes of each tile from
 their own entries

---
 openjp2-rs/src/j2k.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index f238514..83ab8ae 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7368,20 +7368,20 @@ pub(crate) fn opj_j2k_setup_encoder(
                         let mut tcp_poc: *mut opj_poc_t =
                             &mut *(*tcp).pocs.as_mut_ptr().offset(numpocs_tile as isize)
                                 as *mut opj_poc_t;
-                        if parameters.POC[numpocs_tile as usize].compno0 >= image.numcomps {
+                        if parameters.POC[i as usize].compno0 >= image.numcomps {
                             event_msg!(p_manager, EVT_ERROR, "Invalid compno0 for POC %d\n", i,);
                             return 0i32;
                         }
-                        (*tcp_poc).resno0 = parameters.POC[numpocs_tile as usize].resno0;
-                        (*tcp_poc).compno0 = parameters.POC[numpocs_tile as usize].compno0;
-                        (*tcp_poc).layno1 = parameters.POC[numpocs_tile as usize].layno1;
-                        (*tcp_poc).resno1 = parameters.POC[numpocs_tile as usize].resno1;
+                        (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
+                        (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
+                        (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
+                        (*tcp_poc).resno1 = parameters.POC[i as usize].resno1;
                         (*tcp_poc).compno1 = opj_uint_min(
-                            parameters.POC[numpocs_tile as usize].compno1,
+                            parameters.POC[i as usize].compno1,
                             image.numcomps,
                         );
-                        (*tcp_poc).prg1 = parameters.POC[numpocs_tile as usize].prg1;
-                        (*tcp_poc).tile = parameters.POC[numpocs_tile as usize].tile;
+                        (*tcp_poc).prg1 = parameters.POC[i as usize].prg1;
+                        (*tcp_poc).tile = parameters.POC[i as usize].tile;
                         numpocs_tile += 1;
                     }
                     i += 1;
-- 
2.43.0


From d71ab31d7eb6095941bae771dc4fbc12c2ac25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 15/83] fix: write every packet once when progression changes
 overlap or tile-parts are split

---
 openjp2-rs/src/j2k.rs | 22 +++++++++++++---------
 openjp2-rs/src/pi.rs  | 20 ++++++++++++--------
 openjp2-rs/src/t2.rs  |  6 ++++++
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 83ab8ae..28500c5 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -864,30 +864,34 @@ fn opj_j2k_get_num_tp(
         l_current_poc = &mut *(*tcp).pocs.as_mut_ptr().offset(pino as isize) as *mut opj_poc_t;
         assert!(!l_current_poc.is_null());
         // get the progression order as a character string
-        let prog = opj_j2k_convert_progression_order((*tcp).prg);
+        let prog = opj_j2k_convert_progression_order((*l_current_poc).prg);
         assert!(prog != ProgressionOrder::Unknown);
         if (*cp).m_specific_param.m_enc.m_tp_on {
             for step in prog.get_order() {
                 match step {
                     ProgressionStep::Component => {
                         // component wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).compE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul(
+                            (*l_current_poc).compE.wrapping_sub((*l_current_poc).compS),
+                        )
                     }
                     ProgressionStep::Resolution => {
                         // resolution wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).resE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul(
+                            (*l_current_poc).resE.wrapping_sub((*l_current_poc).resS),
+                        )
                     }
                     ProgressionStep::Precinct => {
                         // precinct wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).prcE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul(
+                            (*l_current_poc).prcE.wrapping_sub((*l_current_poc).prcS),
+                        )
                     }
                     ProgressionStep::Layer => {
                         // layer wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).layE)
-                            as OPJ_UINT32
+                        tpnum = tpnum.wrapping_mul(
+                            (*l_current_poc).layE.wrapping_sub((*l_current_poc).layS),
+                        )
                     }
                     ProgressionStep::Unknown => {}
                 }
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..b45876f 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -177,7 +177,9 @@ unsafe fn opj_pi_next_lrcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                             event_msg!((*pi).manager, EVT_ERROR, "Invalid access to pi->include",);
                             return 0i32;
                         }
-                        if *(*pi).include.offset(index as isize) == 0 {
+                        if (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                            && *(*pi).include.offset(index as isize) == 0
+                        {
                             *(*pi).include.offset(index as isize) = 1 as OPJ_INT16;
                             return 1i32;
                         }
@@ -283,7 +285,9 @@ unsafe fn opj_pi_next_rlcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                             event_msg!((*pi).manager, EVT_ERROR, "Invalid access to pi->include",);
                             return 0i32;
                         }
-                        if *(*pi).include.offset(index as isize) == 0 {
+                        if (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                            && *(*pi).include.offset(index as isize) == 0
+                        {
                             *(*pi).include.offset(index as isize) = 1 as OPJ_INT16;
                             return 1i32;
                         }
@@ -1650,12 +1654,7 @@ unsafe fn opj_pi_update_encode_poc_and_final(
         (*l_current_poc).layE = (*l_current_poc).layno1;
         (*l_current_poc).prg = (*l_current_poc).prg1;
         (*l_current_poc).prcS = 0 as OPJ_UINT32;
-        // special treatment here different from the first element
-        (*l_current_poc).layS = if (*l_current_poc).layE > (*l_current_poc.offset(-1)).layE {
-            (*l_current_poc).layE
-        } else {
-            0u32
-        };
+        (*l_current_poc).layS = 0 as OPJ_UINT32;
         (*l_current_poc).prcE = p_max_prec;
         (*l_current_poc).txS = p_tx0;
         (*l_current_poc).txE = p_tx1;
@@ -2425,6 +2424,11 @@ pub(crate) unsafe fn opj_pi_create_encode(
     let mut tcp: *mut opj_poc_t =
         &mut *(*tcps).pocs.as_mut_ptr().offset(pino as isize) as *mut opj_poc_t;
     let prog = opj_j2k_convert_progression_order((*tcp).prg);
+    // Each progression has its own level at which tile-parts are split
+    let flag = (*cp).m_specific_param.m_enc.m_tp_flag;
+    if let Some(pos) = prog.get_order().iter().position(|step| *step as u8 == flag) {
+        tppos = pos as OPJ_INT32;
+    }
     (*pi.offset(pino as isize)).first = 1i32;
     (*pi.offset(pino as isize)).poc.prg = (*tcp).prg;
     if !((*cp).m_specific_param.m_enc.m_tp_on
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..26024bf 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -220,6 +220,12 @@ pub(crate) unsafe fn opj_t2_encode_packets(
             compno += 1;
         }
     } else {
+        // Packets of earlier progressions are not written again
+        while poc < p_pino {
+            opj_pi_create_encode(l_pi, l_cp, p_tile_no, poc, 0, p_tp_pos, THRESH_CALC);
+            while opj_pi_next(l_pi.offset(poc as isize)) != 0 {}
+            poc += 1;
+        }
         opj_pi_create_encode(l_pi, l_cp, p_tile_no, p_pino, p_tp_num, p_tp_pos, p_t2_mode);
         l_current_pi = &mut *l_pi.offset(p_pino as isize) as *mut opj_pi_iterator_t;
         if (*l_current_pi).poc.prg as core::ffi::c_int == OPJ_PROG_UNKNOWN as core::ffi::c_int {
-- 
2.43.0


From 0ab8db59308afff0a906d6c59f2196d05acb1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 16/83] fix: start bypass coding after four bit-planes of a
 region of interest too

---
 openjp2-rs/src/t1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..6b4975e 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2336,7 +2336,7 @@ fn opj_t1_decode_cblk(
             let mut seg: *mut opj_tcd_seg_t =
                 &mut *(*cblk).segs.offset(segno as isize) as *mut opj_tcd_seg_t;
             // BYPASS mode
-            type_0 = if bpno_plus_one <= (*cblk).numbps as OPJ_INT32 - 4i32
+            type_0 = if bpno_plus_one <= roishift.wrapping_add((*cblk).numbps) as OPJ_INT32 - 4i32
                 && passtype < 2
                 && cblksty & 0x1 != 0
             {
-- 
2.43.0


From c89a083c6e78f78abc1e8751a2998cbb9170c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 17/83] fix: never write precinct sizes that are only legal at
 the lowest resolution

---
 openjp2-rs/src/j2k.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 28500c5..227752f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7600,6 +7600,13 @@ pub(crate) fn opj_j2k_setup_encoder(
                                     opj_int_floorlog2(size_prch) as OPJ_UINT32
                             }
                         }
+                        // Precincts of size 1 are possible at the lowest resolution only
+                        if it_res > 0 {
+                            (*tccp_1).prcw[it_res as usize] =
+                                opj_uint_max((*tccp_1).prcw[it_res as usize], 1);
+                            (*tccp_1).prch[it_res as usize] =
+                                opj_uint_max((*tccp_1).prch[it_res as usize], 1);
+                        }
                         p += 1;
                         it_res -= 1
                         // printf("\nsize precinct for level %d : %d,%d\n",
-- 
2.43.0


From 3f716027c1405c4d3e64571df7da36e3d6c0518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 18/83] fix: split tile-parts below the position level of a
 progression

---
 openjp2-rs/src/j2k.rs | 75 ++++++++++++++++++++++++-------------------
 openjp2-rs/src/pi.rs  | 68 ++++++++++++++++++++++++++++++++++++---
 openjp2-rs/src/t2.rs  | 14 ++++++--
 3 files changed, 116 insertions(+), 41 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 227752f..d628e25 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -837,6 +837,8 @@ fn opj_j2k_check_poc_val(
 // @param               cp                      the coding parameters.
 // @param               pino            the offset of the given poc (i.e. its position in the coding
 // parameter). @param               tileno          the given tile.
+// @param               image           the image being encoded.
+// @param               p_manager       the user event manager.
 //
 // @return              the number of tile parts.
 // -----------------------------------------------------------------------
@@ -844,6 +846,8 @@ fn opj_j2k_get_num_tp(
     mut cp: *mut opj_cp_t,
     mut pino: OPJ_UINT32,
     mut tileno: OPJ_UINT32,
+    mut image: *const opj_image_t,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_UINT32 {
     unsafe {
         let mut i: OPJ_INT32 = 0;
@@ -868,33 +872,6 @@ fn opj_j2k_get_num_tp(
         assert!(prog != ProgressionOrder::Unknown);
         if (*cp).m_specific_param.m_enc.m_tp_on {
             for step in prog.get_order() {
-                match step {
-                    ProgressionStep::Component => {
-                        // component wise
-                        tpnum = tpnum.wrapping_mul(
-                            (*l_current_poc).compE.wrapping_sub((*l_current_poc).compS),
-                        )
-                    }
-                    ProgressionStep::Resolution => {
-                        // resolution wise
-                        tpnum = tpnum.wrapping_mul(
-                            (*l_current_poc).resE.wrapping_sub((*l_current_poc).resS),
-                        )
-                    }
-                    ProgressionStep::Precinct => {
-                        // precinct wise
-                        tpnum = tpnum.wrapping_mul(
-                            (*l_current_poc).prcE.wrapping_sub((*l_current_poc).prcS),
-                        )
-                    }
-                    ProgressionStep::Layer => {
-                        // layer wise
-                        tpnum = tpnum.wrapping_mul(
-                            (*l_current_poc).layE.wrapping_sub((*l_current_poc).layS),
-                        )
-                    }
-                    ProgressionStep::Unknown => {}
-                }
                 // would we split here ?
                 if (*cp).m_specific_param.m_enc.m_tp_flag == *step as u8 {
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
@@ -902,8 +879,28 @@ fn opj_j2k_get_num_tp(
                 }
                 i += 1;
             }
-        } else {
-            tpnum = 1 as OPJ_UINT32
+            // count how often packets of this progression start a new tile-part
+            let mut l_pi = opj_pi_initialise_encode(image, cp, tileno, FINAL_PASS, p_manager);
+            if l_pi.is_null() {
+                return tpnum;
+            }
+            let mut l_tp = None;
+            let mut poc = 0 as OPJ_UINT32;
+            tpnum = 0 as OPJ_UINT32;
+            while poc <= pino {
+                opj_pi_create_encode_all(l_pi, cp, tileno, poc);
+                let l_current_pi = l_pi.offset(poc as isize);
+                while opj_pi_next(l_current_pi) != 0 {
+                    let l_current_tp = Some(opj_pi_get_tile_part(l_current_pi, cp));
+                    if poc == pino && l_tp != l_current_tp {
+                        l_tp = l_current_tp;
+                        tpnum += 1;
+                    }
+                }
+                poc += 1;
+            }
+            opj_pi_destroy(l_pi, (*tcp).numpocs.wrapping_add(1u32));
+            tpnum = opj_uint_max(tpnum, 1);
         }
         tpnum
     }
@@ -924,7 +921,7 @@ fn opj_j2k_calculate_tp(
     mut cp: *mut opj_cp_t,
     mut p_nb_tiles: *mut OPJ_UINT32,
     mut image: &mut opj_image,
-    mut _p_manager: &mut opj_event_mgr,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
     let mut pino: OPJ_UINT32 = 0;
@@ -979,7 +976,7 @@ fn opj_j2k_calculate_tp(
       opj_pi_update_encoding_parameters(image, cp, tileno);
       pino = 0 as OPJ_UINT32;
       while pino <= (*tcp).numpocs {
-        let mut tp_num = opj_j2k_get_num_tp(cp, pino, tileno);
+        let mut tp_num = opj_j2k_get_num_tp(cp, pino, tileno, image, p_manager);
         *p_nb_tiles = (*p_nb_tiles).wrapping_add(tp_num);
         cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
         pino += 1;
@@ -12770,7 +12767,13 @@ fn opj_j2k_write_all_tile_parts(
         l_cp = &mut p_j2k.m_cp;
         l_tcp = (*l_cp).tcps.offset(p_j2k.m_current_tile_number as isize);
         // Get number of tile parts
-        tot_num_tp = opj_j2k_get_num_tp(l_cp, 0 as OPJ_UINT32, p_j2k.m_current_tile_number);
+        tot_num_tp = opj_j2k_get_num_tp(
+            l_cp,
+            0 as OPJ_UINT32,
+            p_j2k.m_current_tile_number,
+            p_j2k.m_private_image,
+            p_manager,
+        );
         // start writing remaining tile parts
         p_j2k.m_specific_param.m_encoder.m_current_tile_part_number = p_j2k
             .m_specific_param
@@ -12846,7 +12849,13 @@ fn opj_j2k_write_all_tile_parts(
         while pino <= (*l_tcp).numpocs {
             (*l_tcd).cur_pino = pino;
             // Get number of tile parts
-            tot_num_tp = opj_j2k_get_num_tp(l_cp, pino, p_j2k.m_current_tile_number);
+            tot_num_tp = opj_j2k_get_num_tp(
+            l_cp,
+            pino,
+            p_j2k.m_current_tile_number,
+            p_j2k.m_private_image,
+            p_manager,
+        );
             tilepartno = 0 as OPJ_UINT32;
             while tilepartno < tot_num_tp {
                 p_j2k
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index b45876f..ce1c698 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2407,6 +2407,69 @@ pub(crate) unsafe fn opj_pi_initialise_encode(
     }
     l_pi
 }
+// *
+// Prepares an iterator for all packets of one progression of a tile, regardless of tile-parts.
+//
+// @param pi     packet iterators of the tile
+// @param cp     coding parameters
+// @param tileno tile number
+// @param pino   number of the progression
+pub(crate) unsafe fn opj_pi_create_encode_all(
+    mut pi: *mut opj_pi_iterator_t,
+    mut cp: *mut opj_cp_t,
+    mut tileno: OPJ_UINT32,
+    mut pino: OPJ_UINT32,
+) {
+    let tcp = &(*(*cp).tcps.offset(tileno as isize)).pocs[pino as usize];
+    let pi = &mut *pi.offset(pino as isize);
+    pi.first = 1i32;
+    pi.poc.prg = tcp.prg;
+    pi.poc.resno0 = tcp.resS;
+    pi.poc.resno1 = tcp.resE;
+    pi.poc.compno0 = tcp.compS;
+    pi.poc.compno1 = tcp.compE;
+    pi.poc.layno0 = tcp.layS;
+    pi.poc.layno1 = tcp.layE;
+    pi.poc.precno0 = tcp.prcS;
+    pi.poc.precno1 = tcp.prcE;
+    pi.poc.tx0 = tcp.txS;
+    pi.poc.ty0 = tcp.tyS;
+    pi.poc.tx1 = tcp.txE;
+    pi.poc.ty1 = tcp.tyE;
+}
+
+// *
+// Identifies the tile-part of the current packet: packets of one progression are in the same
+// tile-part when they agree in every level down to the one tile-parts are split at.
+pub(crate) unsafe fn opj_pi_get_tile_part(
+    mut pi: *const opj_pi_iterator_t,
+    mut cp: *const opj_cp_t,
+) -> [OPJ_UINT32; 5] {
+    let mut levels = [0; 5];
+    if !(*cp).m_specific_param.m_enc.m_tp_on {
+        return levels;
+    }
+    let prog = opj_j2k_convert_progression_order((*pi).poc.prg);
+    for step in prog.get_order() {
+        match step {
+            ProgressionStep::Layer => levels[0] = (*pi).layno,
+            ProgressionStep::Resolution => levels[1] = (*pi).resno,
+            ProgressionStep::Component => levels[2] = (*pi).compno,
+            ProgressionStep::Precinct => match prog {
+                ProgressionOrder::LRCP | ProgressionOrder::RLCP => levels[3] = (*pi).precno,
+                _ => {
+                    levels[3] = (*pi).x;
+                    levels[4] = (*pi).y
+                }
+            },
+            ProgressionStep::Unknown => {}
+        }
+        if (*cp).m_specific_param.m_enc.m_tp_flag == *step as u8 {
+            break;
+        }
+    }
+    levels
+}
 #[no_mangle]
 pub(crate) unsafe fn opj_pi_create_encode(
     mut pi: *mut opj_pi_iterator_t,
@@ -2424,11 +2487,6 @@ pub(crate) unsafe fn opj_pi_create_encode(
     let mut tcp: *mut opj_poc_t =
         &mut *(*tcps).pocs.as_mut_ptr().offset(pino as isize) as *mut opj_poc_t;
     let prog = opj_j2k_convert_progression_order((*tcp).prg);
-    // Each progression has its own level at which tile-parts are split
-    let flag = (*cp).m_specific_param.m_enc.m_tp_flag;
-    if let Some(pos) = prog.get_order().iter().position(|step| *step as u8 == flag) {
-        tppos = pos as OPJ_INT32;
-    }
     (*pi.offset(pino as isize)).first = 1i32;
     (*pi.offset(pino as isize)).poc.prg = (*tcp).prg;
     if !((*cp).m_specific_param.m_enc.m_tp_on
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 26024bf..514f848 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -222,11 +222,11 @@ pub(crate) unsafe fn opj_t2_encode_packets(
     } else {
         // Packets of earlier progressions are not written again
         while poc < p_pino {
-            opj_pi_create_encode(l_pi, l_cp, p_tile_no, poc, 0, p_tp_pos, THRESH_CALC);
+            opj_pi_create_encode_all(l_pi, l_cp, p_tile_no, poc);
             while opj_pi_next(l_pi.offset(poc as isize)) != 0 {}
             poc += 1;
         }
-        opj_pi_create_encode(l_pi, l_cp, p_tile_no, p_pino, p_tp_num, p_tp_pos, p_t2_mode);
+        opj_pi_create_encode_all(l_pi, l_cp, p_tile_no, p_pino);
         l_current_pi = &mut *l_pi.offset(p_pino as isize) as *mut opj_pi_iterator_t;
         if (*l_current_pi).poc.prg as core::ffi::c_int == OPJ_PROG_UNKNOWN as core::ffi::c_int {
             // TODO ADE : add an error
@@ -247,8 +247,16 @@ pub(crate) unsafe fn opj_t2_encode_packets(
                 return 0i32;
             }
         }
+        let mut l_tp_count = 0 as OPJ_UINT32;
+        let mut l_tp = None;
         while opj_pi_next(l_current_pi) != 0 {
-            if (*l_current_pi).layno < p_maxlayers {
+            // Only the packets of the requested tile-part are written
+            let l_current_tp = Some(opj_pi_get_tile_part(l_current_pi, l_cp));
+            if l_tp != l_current_tp {
+                l_tp = l_current_tp;
+                l_tp_count += 1;
+            }
+            if l_tp_count == p_tp_num.wrapping_add(1) && (*l_current_pi).layno < p_maxlayers {
                 l_nb_bytes = 0 as OPJ_UINT32;
                 if opj_t2_encode_packet(
                     p_tile_no,
-- 
2.43.0


From 93e096c5210ce171ba21273f6ecca2f8eef87c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:21 +0000
Subject: [PATCH 19/83] fix: make room for every terminated pass of a deep
 code-block

---
 openjp2-rs/src/tcd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 2cdc619..d81a987 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1427,9 +1427,11 @@ unsafe fn opj_tcd_code_block_enc_allocate_data(
     // and +33 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4)
     // and +63 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -IMF 2K)
     // and +74 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -n 8 -s 7,7 -I)
+    // Those numbers grow with the precision: each terminated coding pass may
+    // add up to 4 bytes, and there are up to 3 passes in each of 31 bit-planes.
     // TODO: is there a theoretical upper-bound for the compressed code
     // block size ?
-    l_data_size = (74u32).wrapping_add(
+    l_data_size = (74u32 + 4 * 3 * 31).wrapping_add(
         (((*p_code_block).x1 - (*p_code_block).x0)
             * ((*p_code_block).y1 - (*p_code_block).y0)
             * core::mem::size_of::<OPJ_UINT32>() as OPJ_INT32) as OPJ_UINT32,
-- 
2.43.0


From c61077cb7993f9747dc5247112d6263a5726386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 20/83] fix: refuse to split a tile into more tile-parts than
 can be numbered

---
 openjp2-rs/src/j2k.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d628e25..01230eb 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -981,6 +981,17 @@ fn opj_j2k_calculate_tp(
         cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
         pino += 1;
       }
+      // TPsot and TNsot are one byte wide
+      if cur_totnum_tp > 255 {
+        event_msg!(
+          p_manager,
+          EVT_ERROR,
+          "Tile %d would need %d tile-parts. A tile can have 255 at most\n",
+          tileno,
+          cur_totnum_tp,
+        );
+        return 0i32;
+      }
       (*tcp).m_nb_tile_parts = cur_totnum_tp;
       tcp = tcp.offset(1);
       tileno += 1;
-- 
2.43.0


From 7f067c43a35a0a0d9a17607176abfce64fde4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 21/83] fix: honour the length of unknown marker segments

---
 openjp2-rs/src/j2k.rs | 104 +++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 42 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 01230eb..fdb7c1b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -5005,7 +5005,7 @@ fn opj_j2k_write_epc(
 //
 // @param       p_j2k                   the jpeg2000 codec.
 // @param       p_stream                the stream object to read from.
-// @param       output_marker           FIXME DOC
+// @param       output_marker           the unknown marker, on return the next known one
 // @param       p_manager               the user event manager.
 //
 // @return      true                    if the marker could be deduced.
@@ -5016,13 +5016,54 @@ fn opj_j2k_read_unk(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        let mut l_unknown_marker: OPJ_UINT32 = 0;
-        let mut l_size_unk = 2 as OPJ_UINT32;
-        let mut l_marker_handler = J2KMarker::UNK(0);
+        let mut l_marker_handler = *output_marker;
+        let mut l_size_unk: OPJ_UINT32 = 0;
         // preconditions
 
         event_msg!(p_manager, EVT_WARNING, "Unknown marker\n",);
         loop {
+            let l_pos = opj_stream_tell(p_stream) - 2;
+            l_size_unk = 0 as OPJ_UINT32;
+            // Markers 0xFF30 to 0xFF3F stand alone, all others start a marker segment
+            if !(0xFF30u32..=0xFF3Fu32).contains(&l_marker_handler.as_u32()) {
+                // Try to read 2 bytes (the marker size) from stream and copy them into the buffer
+                if opj_stream_read_data(
+                    p_stream,
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    2 as OPJ_SIZE_T,
+                    p_manager,
+                ) != 2
+                {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+                opj_read_bytes(
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    &mut l_size_unk,
+                    2 as OPJ_UINT32,
+                );
+                if l_size_unk < 2u32 {
+                    event_msg!(p_manager, EVT_ERROR, "Invalid marker size\n",);
+                    return 0i32;
+                }
+                // Skip the rest of the marker segment
+                let l_rest = l_size_unk as OPJ_OFF_T - 2;
+                if l_rest > 0 && opj_stream_skip(p_stream, l_rest, p_manager) != l_rest {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+            }
+            // Add the marker to the codestream index
+            if opj_j2k_add_mhmarker(
+                p_j2k.cstr_index,
+                J2KMarker::UNK(0),
+                l_pos,
+                l_size_unk.wrapping_add(2u32),
+            ) == 0i32
+            {
+                event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
+                return 0i32;
+            }
             // Try to read 2 bytes (the next marker ID) from stream and copy them into the buffer
             if opj_stream_read_data(
                 p_stream,
@@ -5034,41 +5075,19 @@ fn opj_j2k_read_unk(
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return 0i32;
             }
-            // read 2 bytes as the new marker ID
-            opj_read_bytes(
-                p_j2k.m_specific_param.m_decoder.m_header_data,
-                &mut l_unknown_marker,
-                2 as OPJ_UINT32,
-            );
-            if l_unknown_marker < 0xFF00u32 {
-                continue;
-            }
             // Get the marker handler from the marker ID
-            l_marker_handler = J2KMarker::from(l_unknown_marker);
-            if p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
-                == J2KState::NONE
+            l_marker_handler =
+                J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
+            if l_marker_handler.is_invalid()
+                || p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
+                    == J2KState::NONE
             {
                 event_msg!(p_manager, EVT_ERROR, "Marker is not compliant with its position\n",);
                 return 0i32;
-            } else if !l_marker_handler.is_unknown() {
-                // Add the marker to the codestream index
-                if l_marker_handler != J2KMarker::SOT {
-                    let mut res = opj_j2k_add_mhmarker(
-                        p_j2k.cstr_index,
-                        J2KMarker::UNK(0),
-                        (opj_stream_tell(p_stream) as OPJ_UINT32).wrapping_sub(l_size_unk)
-                            as OPJ_OFF_T,
-                        l_size_unk,
-                    );
-                    if res == 0i32 {
-                        event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
-                        return 0i32;
-                    }
-                }
+            }
+            if !l_marker_handler.is_unknown() {
+                // next marker is known and well located
                 break;
-            // next marker is known and well located
-            } else {
-                l_size_unk = (l_size_unk as core::ffi::c_uint).wrapping_add(2u32) as OPJ_UINT32
             }
         }
         *output_marker = l_marker_handler;
@@ -9154,7 +9173,6 @@ pub(crate) fn opj_j2k_read_tile_header(
                             );
                             return false;
                         }
-                        // FIXME manage case of unknown marker as in the main header ?
                         // Check if the marker size is compatible with the header data size
                         if l_marker_size > p_j2k.m_specific_param.m_decoder.m_header_data_size {
                             let mut new_header_data = std::ptr::null_mut::<OPJ_BYTE>();
@@ -9207,13 +9225,15 @@ pub(crate) fn opj_j2k_read_tile_header(
                             event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                             return false;
                         }
-                        // Read the marker segment with the correct marker handler
-                        if l_marker_handler.handler(
-                            p_j2k,
-                            p_j2k.m_specific_param.m_decoder.m_header_data,
-                            l_marker_size,
-                            p_manager,
-                        ) == 0
+                        // Read the marker segment with the correct marker handler;
+                        // unknown marker segments are skipped
+                        if (!l_marker_handler.is_unknown() || l_marker_handler.is_invalid())
+                            && l_marker_handler.handler(
+                                p_j2k,
+                                p_j2k.m_specific_param.m_decoder.m_header_data,
+                                l_marker_size,
+                                p_manager,
+                            ) == 0
                         {
                             event_msg!(
                                 p_manager,
-- 
2.43.0


From 2169262ca948dac805f816d403e8874cacfa7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:09 +0000
Subject: [PATCH 22/83] fix: COC and QCC prevail over COD and QCD in any order

---
 openjp2-rs/src/j2k.rs   | 79 +++++++++++++++++++++++++++++++++--------
 openjp2-rs/src/types.rs |  3 ++
 2 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fdb7c1b..d17dd38 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1778,6 +1778,14 @@ fn opj_j2k_read_cod(
             return 0i32;
         }
         p_header_size = (p_header_size as core::ffi::c_uint).wrapping_sub(5u32) as OPJ_UINT32;
+        // A COC of the same header prevails, wherever it stands
+        let l_tccps = core::slice::from_raw_parts((*l_tcp).tccps, (*l_image).numcomps as usize);
+        let l_from_coc = l_tccps
+            .iter()
+            .enumerate()
+            .filter(|(_, tccp)| tccp.m_from_coc)
+            .map(|(compno, tccp)| (compno, *tccp))
+            .collect::<Vec<_>>();
         i = 0 as OPJ_UINT32;
         while i < (*l_image).numcomps {
             (*(*l_tcp).tccps.offset(i as isize)).csty = (*l_tcp).csty & 0x1u32;
@@ -1800,6 +1808,9 @@ fn opj_j2k_read_cod(
         }
         // Apply the coding style to other components of the current tile or the m_default_tcp
         opj_j2k_copy_tile_component_parameters(p_j2k);
+        for (compno, tccp) in l_from_coc {
+            *(*l_tcp).tccps.add(compno) = tccp;
+        }
         // Index
         1i32
     }
@@ -2070,6 +2081,7 @@ fn opj_j2k_read_coc(
             &mut (*(*l_tcp).tccps.offset(l_comp_no as isize)).csty,
             1 as OPJ_UINT32,
         );
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).m_from_coc = true;
         p_header_data = p_header_data.offset(1);
         if opj_j2k_read_SPCod_SPCoc(p_j2k, l_comp_no, p_header_data, &mut p_header_size, p_manager)
             == 0
@@ -2179,23 +2191,49 @@ fn opj_j2k_read_qcd(
     mut p_header_size: OPJ_UINT32,
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
-    // preconditions
+    unsafe {
+        // preconditions
 
-    assert!(!p_header_data.is_null());
-    if opj_j2k_read_SQcd_SQcc(p_j2k, 0 as OPJ_UINT32, p_header_data, &mut p_header_size, p_manager)
-        == 0
-    {
-        event_msg!(p_manager, EVT_ERROR, "Error reading QCD marker\n",);
-        return 0i32;
-    }
-    if p_header_size != 0u32 {
-        event_msg!(p_manager, EVT_ERROR, "Error reading QCD marker\n",);
-        return 0i32;
+        assert!(!p_header_data.is_null());
+        let l_tcp = if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize) as *mut opj_tcp_t
+        } else {
+            p_j2k.m_specific_param.m_decoder.m_default_tcp
+        };
+        // A QCC of the same header prevails, wherever it stands
+        let l_tccps = core::slice::from_raw_parts(
+            (*l_tcp).tccps,
+            (*p_j2k.m_private_image).numcomps as usize,
+        );
+        let l_from_qcc = l_tccps
+            .iter()
+            .enumerate()
+            .filter(|(_, tccp)| tccp.m_from_qcc)
+            .map(|(compno, tccp)| (compno, *tccp))
+            .collect::<Vec<_>>();
+        if opj_j2k_read_SQcd_SQcc(
+            p_j2k,
+            0 as OPJ_UINT32,
+            p_header_data,
+            &mut p_header_size,
+            p_manager,
+        ) == 0
+        {
+            event_msg!(p_manager, EVT_ERROR, "Error reading QCD marker\n",);
+            return 0i32;
+        }
+        if p_header_size != 0u32 {
+            event_msg!(p_manager, EVT_ERROR, "Error reading QCD marker\n",);
+            return 0i32;
+        }
+        // Apply the quantization parameters to other components of the current tile or the
+        // m_default_tcp
+        opj_j2k_copy_tile_quantization_parameters(p_j2k);
+        for (compno, tccp) in l_from_qcc {
+            *(*l_tcp).tccps.add(compno) = tccp;
+        }
+        1i32
     }
-    // Apply the quantization parameters to other components of the current tile or the
-    // m_default_tcp
-    opj_j2k_copy_tile_quantization_parameters(p_j2k);
-    1i32
 }
 
 // *
@@ -2402,6 +2440,12 @@ fn opj_j2k_read_qcc(
             );
             return 0i32;
         }
+        let l_tcp = if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize) as *mut opj_tcp_t
+        } else {
+            p_j2k.m_specific_param.m_decoder.m_default_tcp
+        };
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).m_from_qcc = true;
         if opj_j2k_read_SQcd_SQcc(p_j2k, l_comp_no, p_header_data, &mut p_header_size, p_manager)
             == 0
         {
@@ -8666,6 +8710,11 @@ fn opj_j2k_copy_default_tcp_and_create_tcd(
                 (*l_default_tcp).tccps as *const core::ffi::c_void,
                 l_tccp_size as usize,
             );
+            // No COC or QCC of the tile's own header has been read yet
+            for compno in 0..(*l_image).numcomps as usize {
+                (*l_current_tccp.add(compno)).m_from_coc = false;
+                (*l_current_tccp.add(compno)).m_from_qcc = false;
+            }
             // Move to next tile cp
             l_tcp = l_tcp.offset(1);
             i += 1;
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9093a14..632755f 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -436,6 +436,9 @@ pub(crate) struct opj_tccp {
     pub prcw: [OPJ_UINT32; 33],
     pub prch: [OPJ_UINT32; 33],
     pub m_dc_level_shift: OPJ_INT32,
+    /// the header being read has a COC / QCC marker segment for this component
+    pub m_from_coc: bool,
+    pub m_from_qcc: bool,
 }
 pub(crate) type opj_tccp_t = opj_tccp;
 
-- 
2.43.0


From 167770d137d6c32dbff95974c50f53ea65174196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 23/83] fix: number PPT marker segments within their tile-part
 header

---
 openjp2-rs/src/j2k.rs   | 9 ++++++---
 openjp2-rs/src/types.rs | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d17dd38..966fd18 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3371,10 +3371,12 @@ fn opj_j2k_read_ppt(
         opj_read_bytes(p_header_data, &mut l_Z_ppt, 1 as OPJ_UINT32);
         p_header_data = p_header_data.offset(1);
         p_header_size = p_header_size.wrapping_sub(1);
+        // Zppt restarts at zero in every tile-part header
+        l_Z_ppt += (*l_tcp).ppt_markers_base;
         // check allocation needed
         if (*l_tcp).ppt_markers.is_null() {
             // first PPT marker
-            let mut l_newCount = l_Z_ppt.wrapping_add(1u32); // can't overflow, l_Z_ppt is UINT8
+            let mut l_newCount = l_Z_ppt.wrapping_add(1u32); // can't overflow, at most 256 per tile-part
             assert!((*l_tcp).ppt_markers_count == 0u32);
             (*l_tcp).ppt_markers =
                 opj_calloc(l_newCount as size_t, core::mem::size_of::<opj_ppx>()) as *mut opj_ppx;
@@ -3465,7 +3467,7 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
                 .wrapping_add((*(*p_tcp).ppt_markers.offset(i as isize)).m_data_size)
                 as OPJ_UINT32;
             i += 1;
-            // can't overflow, max 256 markers of max 65536 bytes
+            // can't overflow, max 255 tile-parts of 256 markers of max 65532 bytes
         }
         (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size as size_t) as *mut OPJ_BYTE;
         if (*p_tcp).ppt_buffer.is_null() {
@@ -3482,7 +3484,7 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
                     (*p_tcp).ppt_buffer.offset(l_ppt_data_size as isize) as *mut core::ffi::c_void,
                     (*(*p_tcp).ppt_markers.offset(i as isize)).m_data as *const core::ffi::c_void,
                     (*(*p_tcp).ppt_markers.offset(i as isize)).m_data_size as usize,
-                ); // can't overflow, max 256 markers of max 65536 bytes
+                ); // can't overflow, max 255 tile-parts of 256 markers of max 65532 bytes
                 l_ppt_data_size = (l_ppt_data_size as core::ffi::c_uint)
                     .wrapping_add((*(*p_tcp).ppt_markers.offset(i as isize)).m_data_size)
                     as OPJ_UINT32;
@@ -3773,6 +3775,7 @@ fn opj_j2k_read_sot(
       }
     }
     (*l_tcp).m_current_tile_part_number = l_current_part as OPJ_INT32;
+    (*l_tcp).ppt_markers_base = (*l_tcp).ppt_markers_count;
     /* USE_JPWL */
     /* look for the tile in the list of already processed tile (in parts). */
     /* Optimization possible here with a more complex data structure and with the removing of tiles */
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 632755f..deaaa50 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -369,6 +369,7 @@ pub(crate) struct opj_tcp {
     pub numpocs: OPJ_UINT32,
     pub pocs: [opj_poc_t; 32],
     pub ppt_markers_count: OPJ_UINT32,
+    pub ppt_markers_base: OPJ_UINT32,
     pub ppt_markers: *mut opj_ppx,
     pub ppt_data: *mut OPJ_BYTE,
     pub ppt_buffer: *mut OPJ_BYTE,
-- 
2.43.0


From 9c5a3a01e06df766550153b53f3e1eab8c0c2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:50 +0000
Subject: [PATCH 24/83] fix: give each tile-part its own packet headers of the
 PPM marker segments

---
 openjp2-rs/src/j2k.rs   | 83 +++++++++++++++++++++++++++++++++++++++--
 openjp2-rs/src/t2.rs    |  9 +----
 openjp2-rs/src/types.rs |  4 ++
 3 files changed, 85 insertions(+), 11 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 966fd18..1c5d719 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3150,8 +3150,9 @@ fn opj_j2k_read_ppm(
 //
 // @param       p_cp      main coding parameters.
 // @param       p_manager the user event manager.
-fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
+fn opj_j2k_merge_ppm(mut p_j2k: &mut opj_j2k, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
     unsafe {
+        let p_cp: *mut opj_cp_t = &mut p_j2k.m_cp;
         let mut i: OPJ_UINT32 = 0;
         let mut l_ppm_data_size: OPJ_UINT32 = 0;
         let mut l_N_ppm_remaining: OPJ_UINT32 = 0;
@@ -3200,6 +3201,7 @@ fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr)
                             return 0i32;
                         }
                         l_ppm_data_size += l_N_ppm;
+                        p_j2k.ppm_chunk_ends.push(l_ppm_data_size);
                         if l_data_size >= l_N_ppm {
                             l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm)
                                 as OPJ_UINT32;
@@ -3221,7 +3223,7 @@ fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr)
             event_msg!(p_manager, EVT_ERROR, "Corrupted PPM markers\n",);
             return 0i32;
         }
-        (*p_cp).ppm_buffer = opj_malloc(l_ppm_data_size as size_t) as *mut OPJ_BYTE;
+        (*p_cp).ppm_buffer = opj_malloc(l_ppm_data_size.max(1) as size_t) as *mut OPJ_BYTE;
         if (*p_cp).ppm_buffer.is_null() {
             event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
             return 0i32;
@@ -3329,6 +3331,71 @@ fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr)
     }
 }
 // *
+// Hands the packet headers that the PPM marker segments hold for a tile-part, which are in the
+// order of the tile-parts in the codestream, to the tile it belongs to.
+//
+// @param       p_j2k           the jpeg2000 codec.
+// @param       p_sot_pos       the position of the SOT marker of the tile-part.
+// @param       p_manager       the user event manager.
+fn opj_j2k_assign_ppm(
+    p_j2k: &mut opj_j2k,
+    p_sot_pos: OPJ_OFF_T,
+    p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
+        // A tile-part is met for the first time after all those that precede it
+        let l_index = match p_j2k.ppm_sot_positions.binary_search(&p_sot_pos) {
+            Ok(i) => i,
+            Err(i) => {
+                p_j2k.ppm_sot_positions.insert(i, p_sot_pos);
+                i
+            }
+        };
+        if p_j2k.m_specific_param.m_decoder.m_skip_data {
+            return 1i32;
+        }
+        let l_tcp = p_j2k
+            .m_cp
+            .tcps
+            .offset(p_j2k.m_current_tile_number as isize);
+        (*l_tcp).ppt = true;
+        let l_start = match l_index {
+            0 => 0,
+            i => *p_j2k.ppm_chunk_ends.get(i - 1).unwrap_or(&p_j2k.m_cp.ppm_len),
+        };
+        let l_end = *p_j2k.ppm_chunk_ends.get(l_index).unwrap_or(&l_start);
+        let l_size = l_end - l_start;
+        if l_size == 0 {
+            return 1i32;
+        }
+        let l_markers = opj_realloc(
+            (*l_tcp).ppt_markers as *mut core::ffi::c_void,
+            ((*l_tcp).ppt_markers_count as usize + 1)
+                .wrapping_mul(core::mem::size_of::<opj_ppx>()),
+        ) as *mut opj_ppx;
+        if l_markers.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
+            return 0i32;
+        }
+        (*l_tcp).ppt_markers = l_markers;
+        let l_data = opj_malloc(l_size as size_t) as *mut OPJ_BYTE;
+        if l_data.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
+            return 0i32;
+        }
+        memcpy(
+            l_data as *mut core::ffi::c_void,
+            p_j2k.m_cp.ppm_buffer.add(l_start as usize) as *const core::ffi::c_void,
+            l_size as usize,
+        );
+        let l_marker = &mut *l_markers.offset((*l_tcp).ppt_markers_count as isize);
+        l_marker.m_data = l_data;
+        l_marker.m_data_size = l_size;
+        (*l_tcp).ppt_markers_count += 1;
+        1i32
+    }
+}
+// *
 // Reads a PPT marker (Packed packet headers, tile-part header)
 //
 // @param       p_header_data   the data contained in the PPT box.
@@ -3469,7 +3536,8 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
             i += 1;
             // can't overflow, max 255 tile-parts of 256 markers of max 65532 bytes
         }
-        (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size as size_t) as *mut OPJ_BYTE;
+        // A tile whose packets are all in PPM tile-parts without any header has no data
+        (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size.max(1) as size_t) as *mut OPJ_BYTE;
         if (*p_tcp).ppt_buffer.is_null() {
             event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPT marker\n",);
             return 0i32;
@@ -8516,7 +8584,7 @@ fn opj_j2k_read_header_procedure(
             event_msg!(p_manager, EVT_ERROR, "required QCD marker not found in main header\n",);
             return 0i32;
         }
-        if opj_j2k_merge_ppm(&mut p_j2k.m_cp, p_manager) == 0 {
+        if opj_j2k_merge_ppm(p_j2k, p_manager) == 0 {
             event_msg!(p_manager, EVT_ERROR, "Failed to merge PPM data\n",);
             return 0i32;
         }
@@ -9325,6 +9393,11 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos =
                                     sot_pos as OPJ_OFF_T
                             }
+                            if p_j2k.m_cp.ppm
+                                && opj_j2k_assign_ppm(p_j2k, sot_pos as OPJ_OFF_T, p_manager) == 0
+                            {
+                                return false;
+                            }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
                             // Skip the rest of the tile part header
@@ -10207,6 +10280,8 @@ impl opj_j2k {
                 ihdr_w: 0,
                 ihdr_h: 0,
                 dump_state: 0,
+                ppm_chunk_ends: Vec::new(),
+                ppm_sot_positions: Vec::new(),
             }
         }
     }
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 514f848..f45f1ce 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1100,13 +1100,8 @@ unsafe fn opj_t2_read_packet_header(
         return 0i32;
     }
 
-    if (*l_cp).ppm {
-        // PPM
-        l_header_data_start = &mut (*l_cp).ppm_data; // Normal Case
-        l_header_data = *l_header_data_start;
-        l_modified_length_ptr = &mut (*l_cp).ppm_len
-    } else if (*p_tcp).ppt {
-        // PPT
+    if (*p_tcp).ppt {
+        // PPT, or PPM whose headers have been handed to the tiles
         l_header_data_start = &mut (*p_tcp).ppt_data;
         l_header_data = *l_header_data_start;
         l_modified_length_ptr = &mut (*p_tcp).ppt_len
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index deaaa50..a64cc7c 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -334,6 +334,10 @@ pub(crate) struct opj_j2k {
     pub ihdr_w: OPJ_UINT32,
     pub ihdr_h: OPJ_UINT32,
     pub dump_state: core::ffi::c_uint,
+    /// Where the packet headers of each tile-part end in the data of the PPM marker segments
+    pub ppm_chunk_ends: Vec<OPJ_UINT32>,
+    /// Positions of the SOT markers read so far, when there are PPM marker segments
+    pub ppm_sot_positions: Vec<OPJ_OFF_T>,
 }
 
 #[derive(Copy, Clone)]
-- 
2.43.0


From 59340ddf8672cfae58551d8386bc34cc4ab4413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 25/83] fix: decode and encode tiles that hold no sample of any
 component

---
 openjp2-rs/src/j2k.rs | 10 +++++++++-
 openjp2-rs/src/pi.rs  |  7 +++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1c5d719..3845be6 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4489,7 +4489,15 @@ fn opj_j2k_read_sod(
                 return 0i32;
             }
         } else {
-            l_sot_length_pb_detected = 1i32
+            l_sot_length_pb_detected = 1i32;
+            // A tile-part may hold no byte of any packet: the tile has been read all the same
+            if (*l_current_data).is_null() {
+                *l_current_data = opj_malloc(2 as size_t) as *mut OPJ_BYTE;
+                if (*l_current_data).is_null() {
+                    event_msg!(p_manager, EVT_ERROR, "Not enough memory to decode tile\n",);
+                    return 0i32;
+                }
+            }
         }
         // Index
         l_cstr_index = p_j2k.cstr_index;
diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index ce1c698..f8b819e 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2017,7 +2017,9 @@ pub(crate) unsafe fn opj_pi_create_decode(
             .wrapping_add(1u32)
             .wrapping_div((*l_tcp).numlayers.wrapping_add(1u32))
     {
-        (*l_current_pi).include_size = (*l_tcp).numlayers.wrapping_add(1u32).wrapping_mul(l_step_l);
+        // a tile without any sample has no packet
+        (*l_current_pi).include_size =
+            (*l_tcp).numlayers.wrapping_add(1u32).wrapping_mul(l_step_l).max(1);
         (*l_current_pi).include =
             opj_calloc((*l_current_pi).include_size as size_t, core::mem::size_of::<OPJ_INT16>())
                 as *mut OPJ_INT16
@@ -2279,7 +2281,8 @@ pub(crate) unsafe fn opj_pi_initialise_encode(
     (*l_pi).tp_on = (*p_cp).m_specific_param.m_enc.m_tp_on as OPJ_BYTE;
     l_current_pi = l_pi;
     // memory allocation for include
-    (*l_current_pi).include_size = (*l_tcp).numlayers.wrapping_mul(l_step_l);
+    // a tile without any sample has no packet
+    (*l_current_pi).include_size = (*l_tcp).numlayers.wrapping_mul(l_step_l).max(1);
     (*l_current_pi).include =
         opj_calloc((*l_current_pi).include_size as size_t, core::mem::size_of::<OPJ_INT16>())
             as *mut OPJ_INT16;
-- 
2.43.0


From 1f08cc72106da2e4386507d9d95a06a2db84ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 26/83] fix: undo the multiple component transform of
 components with different numbers of levels

---
 openjp2-rs/src/tcd.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index d81a987..3319de3 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2241,6 +2241,14 @@ unsafe fn opj_tcd_dwt_decode(mut p_tcd: *mut opj_tcd_t) -> OPJ_BOOL {
     }
     1i32
 }
+// *
+// Number of resolutions of a component that were to be decoded, but were not
+unsafe fn opj_tcd_missing_resolutions(p_tcd: *const opj_tcd_t, compno: OPJ_UINT32) -> OPJ_UINT32 {
+    let l_tile_comp = (*(*(*p_tcd).tcd_image).tiles).comps.offset(compno as isize);
+    (*l_tile_comp)
+        .minimum_num_resolutions
+        .wrapping_sub((*(*(*p_tcd).image).comps.offset(compno as isize)).resno_decoded)
+}
 unsafe fn opj_tcd_mct_decode(
     mut p_tcd: *mut opj_tcd_t,
     mut p_manager: &mut opj_event_mgr,
@@ -2263,33 +2271,19 @@ unsafe fn opj_tcd_mct_decode(
         // but we would need to take into account a stride then
         l_samples = (((*res_comp0).x1 - (*res_comp0).x0) as OPJ_SIZE_T)
             .wrapping_mul(((*res_comp0).y1 - (*res_comp0).y0) as OPJ_SIZE_T);
-        if (*l_tile).numcomps >= 3u32
-            && ((*l_tile_comp).minimum_num_resolutions
-                != (*(*l_tile).comps.offset(1)).minimum_num_resolutions
-                || (*l_tile_comp).minimum_num_resolutions
-                    != (*(*l_tile).comps.offset(2)).minimum_num_resolutions)
-        {
-            event_msg!(
-                p_manager,
-                EVT_ERROR,
-                "Tiles don\'t all have the same dimension. Skip the MCT step.\n",
-            );
-            return 0i32;
-        }
         if (*l_tile).numcomps >= 3u32 {
+            // The components may have different numbers of decomposition levels
             let mut res_comp1 = (*(*l_tile).comps.offset(1))
                 .resolutions
-                .offset((*l_tile_comp).minimum_num_resolutions as isize)
+                .offset((*(*l_tile).comps.offset(1)).minimum_num_resolutions as isize)
                 .offset(-1);
             let mut res_comp2 = (*(*l_tile).comps.offset(2))
                 .resolutions
-                .offset((*l_tile_comp).minimum_num_resolutions as isize)
+                .offset((*(*l_tile).comps.offset(2)).minimum_num_resolutions as isize)
                 .offset(-1);
             // testcase 1336.pdf.asan.47.376
-            if (*(*(*p_tcd).image).comps.offset(0)).resno_decoded
-                != (*(*(*p_tcd).image).comps.offset(1)).resno_decoded
-                || (*(*(*p_tcd).image).comps.offset(0)).resno_decoded
-                    != (*(*(*p_tcd).image).comps.offset(2)).resno_decoded
+            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 1)
+                || opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 2)
                 || (((*res_comp1).x1 - (*res_comp1).x0) as OPJ_SIZE_T)
                     .wrapping_mul(((*res_comp1).y1 - (*res_comp1).y0) as OPJ_SIZE_T)
                     != l_samples
@@ -2319,10 +2313,8 @@ unsafe fn opj_tcd_mct_decode(
                 .resolutions
                 .offset((*(*(*p_tcd).image).comps.offset(2)).resno_decoded as isize);
             // testcase 1336.pdf.asan.47.376
-            if (*(*(*p_tcd).image).comps.offset(0)).resno_decoded
-                != (*(*(*p_tcd).image).comps.offset(1)).resno_decoded
-                || (*(*(*p_tcd).image).comps.offset(0)).resno_decoded
-                    != (*(*(*p_tcd).image).comps.offset(2)).resno_decoded
+            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 1)
+                || opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 2)
                 || ((*res_comp1_0).win_x1.wrapping_sub((*res_comp1_0).win_x0) as OPJ_SIZE_T)
                     .wrapping_mul(
                         (*res_comp1_0).win_y1.wrapping_sub((*res_comp1_0).win_y0) as OPJ_SIZE_T
-- 
2.43.0


From fac9d77c0fdfdd6129fdba8ec849b06cac3ccc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 27/83] fix: POC of tile-parts override that of the main
 header, whatever precedes it

---
 openjp2-rs/src/j2k.rs   | 16 ++++++++++++++--
 openjp2-rs/src/types.rs |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 3845be6..a0b3b62 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2767,6 +2767,12 @@ fn opj_j2k_read_poc(
         } else {
             p_j2k.m_specific_param.m_decoder.m_default_tcp
         };
+        // The POC of the tile-parts of a tile are read one after the other, and override the POC
+        // of the main header
+        if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH && !(*l_tcp).m_poc_from_tile {
+            (*l_tcp).m_poc_from_tile = true;
+            (*l_tcp).POC = false;
+        }
         l_old_poc_nb = if (*l_tcp).POC {
             (*l_tcp).numpocs.wrapping_add(1u32)
         } else {
@@ -2789,8 +2795,7 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut (*l_current_poc).compno0, l_comp_room);
             p_header_data = p_header_data.offset(l_comp_room as isize);
             opj_read_bytes(p_header_data, &mut (*l_current_poc).layno1, 2 as OPJ_UINT32);
-            // make sure layer end is in acceptable bounds
-            (*l_current_poc).layno1 = opj_uint_min((*l_current_poc).layno1, (*l_tcp).numlayers); // REpoc_i
+            // the packet iterator bounds it by the number of layers, which may not be known yet
             p_header_data = p_header_data.offset(2); // CEpoc_i
             opj_read_bytes(p_header_data, &mut (*l_current_poc).resno1, 1 as OPJ_UINT32); // Ppoc_i
             p_header_data = p_header_data.offset(1);
@@ -2799,6 +2804,10 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut l_tmp, 1 as OPJ_UINT32);
             p_header_data = p_header_data.offset(1);
             (*l_current_poc).prg = l_tmp as OPJ_PROG_ORDER;
+            // 0 stands for 256, or 16384 when it has two bytes
+            if (*l_current_poc).compno1 == 0 {
+                (*l_current_poc).compno1 = l_nb_comp;
+            }
             // make sure comp is in acceptable bounds
             (*l_current_poc).compno1 = opj_uint_min((*l_current_poc).compno1, l_nb_comp);
             l_current_poc = l_current_poc.offset(1);
@@ -3844,6 +3853,9 @@ fn opj_j2k_read_sot(
     }
     (*l_tcp).m_current_tile_part_number = l_current_part as OPJ_INT32;
     (*l_tcp).ppt_markers_base = (*l_tcp).ppt_markers_count;
+    if l_current_part == 0 {
+      (*l_tcp).m_poc_from_tile = false;
+    }
     /* USE_JPWL */
     /* look for the tile in the list of already processed tile (in parts). */
     /* Optimization possible here with a more complex data structure and with the removing of tiles */
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index a64cc7c..d5514ad 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -397,6 +397,7 @@ pub(crate) struct opj_tcp {
     pub cod: bool,
     pub ppt: bool,
     pub POC: bool,
+    pub m_poc_from_tile: bool,
 }
 pub(crate) type opj_tcp_t = opj_tcp;
 
-- 
2.43.0


From 2a350438915c1d62196e28a72d3ab890802a324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 28/83] fix: count resolutions without any coefficient as
 decoded

---
 openjp2-rs/src/t2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index f45f1ce..e7a1707 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -439,6 +439,11 @@ pub(crate) unsafe fn opj_t2_decode_packets(
                         bandno += 1;
                     }
                 }
+                // The resolution is decoded, even though this packet contributes nothing to it
+                l_img_comp = &mut *(*l_image).comps.offset((*l_current_pi).compno as isize)
+                    as *mut opj_image_comp_t;
+                (*l_img_comp).resno_decoded =
+                    opj_uint_max((*l_current_pi).resno, (*l_img_comp).resno_decoded)
             }
             if skip_packet == 0 {
                 l_nb_bytes_read = 0 as OPJ_UINT32;
-- 
2.43.0


From afad10e97e28488b3ca940aee4641f9a18e579a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 29/83] fix: skip tile-components without samples when copying
 tiles to the image

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a0b3b62..db6b28c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9792,7 +9792,8 @@ fn opj_j2k_update_image_data(
                 src_data_stride = (*l_res_0).win_x1.wrapping_sub((*l_res_0).win_x0);
                 p_src_data = (*l_tilec).data_win
             }
-            if !p_src_data.is_null() {
+            // A tile may hold no sample of this component
+            if !p_src_data.is_null() && res_x0 < res_x1 && res_y0 < res_y1 {
                 l_width_src = (res_x1 - res_x0) as OPJ_UINT32;
                 l_height_src = (res_y1 - res_y0) as OPJ_UINT32;
                 // Current tile component size
-- 
2.43.0


From 38d7f08457d0e0deedf8420eb561aff94179be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 30/83] fix: tell region-of-interest coefficients from
 background of full magnitude

---
 openjp2-rs/src/t1.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 6b4975e..60397c8 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -1952,7 +1952,8 @@ fn opj_t1_clbl_decode_processor(mut user_data: *mut core::ffi::c_void) {
                         j += 1
                     }
                 } else {
-                    let mut thresh = (1i32) << (*tccp).roishift;
+                    // The decoded values carry one more bit for the reconstruction point
+                    let mut thresh = 1u32 << ((*tccp).roishift + 1);
                     j = 0 as OPJ_UINT32;
                     while j < cblk_h {
                         i = 0 as OPJ_UINT32;
@@ -1960,7 +1961,7 @@ fn opj_t1_clbl_decode_processor(mut user_data: *mut core::ffi::c_void) {
                             let mut val =
                                 *datap.offset(j.wrapping_mul(cblk_w).wrapping_add(i) as isize);
                             let mut mag = val.abs();
-                            if mag >= thresh {
+                            if mag as u32 >= thresh {
                                 mag >>= (*tccp).roishift;
                                 *datap.offset(j.wrapping_mul(cblk_w).wrapping_add(i) as isize) =
                                     if val < 0i32 { -mag } else { mag }
-- 
2.43.0


From bb5d8ce5670ffa7caea8921434195564d8203209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 31/83] fix: rewind the packed packet headers of a tile that is
 decoded again

---
 openjp2-rs/src/j2k.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index db6b28c..0165049 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3529,13 +3529,15 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
         // preconditions
 
         assert!(!p_tcp.is_null());
-        if !(*p_tcp).ppt_buffer.is_null() {
-            event_msg!(p_manager, EVT_ERROR, "opj_j2k_merge_ppt() has already been called\n",);
-            return 0i32;
-        }
         if !(*p_tcp).ppt {
             return 1i32;
         }
+        // The tile may have been read before
+        if !(*p_tcp).ppt_buffer.is_null() && (*p_tcp).ppt_markers_count == 0 {
+            return 1i32;
+        }
+        opj_free((*p_tcp).ppt_buffer as *mut core::ffi::c_void);
+        (*p_tcp).ppt_buffer = std::ptr::null_mut::<OPJ_BYTE>();
         l_ppt_data_size = 0u32;
         i = 0u32;
         while i < (*p_tcp).ppt_markers_count {
@@ -9659,6 +9661,9 @@ pub(crate) fn opj_j2k_decode_tile(
         } else {
             p_j2k.m_private_image
         };
+        // The tile may have been decoded before
+        (*l_tcp).ppt_data = (*l_tcp).ppt_buffer;
+        (*l_tcp).ppt_len = (*l_tcp).ppt_data_size;
         if opj_tcd_decode_tile(
             p_j2k.m_tcd,
             (*l_image_for_bounds).x0,
-- 
2.43.0


From 626b5cd1a3dd873e06b775120b2d2e19b2447a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 32/83] fix: skip a last tile-part of unspecified length and
 read on after it

---
 openjp2-rs/src/j2k.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0165049..40df7d6 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3884,10 +3884,10 @@ fn opj_j2k_read_sot(
     }
     /* USE_JPWL */
     /* Ref A.4.2: Psot could be equal zero if it is the last tile-part of the codestream.*/
+    p_j2k.m_specific_param.m_decoder.m_last_tile_part = (l_tot_len == 0) as OPJ_BOOL;
     if l_tot_len == 0 {
       event_msg!(p_manager, EVT_INFO,
                       "Psot value of the current tile-part is equal to zero, we assuming it is the last tile-part of the codestream.\n");
-      p_j2k.m_specific_param.m_decoder.m_last_tile_part = 1i32
     }
     if (*l_tcp).m_nb_tile_parts != 0u32 && l_current_part >= (*l_tcp).m_nb_tile_parts {
       /* Fixes https://bugs.chromium.org/p/oss-fuzz/issues/detail?id=2851 */
@@ -9422,6 +9422,12 @@ pub(crate) fn opj_j2k_read_tile_header(
                             }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
+                            if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
+                                // The last tile-part reaches up to the EOC marker
+                                p_j2k.m_specific_param.m_decoder.m_sot_length =
+                                    (opj_stream_get_number_byte_left(p_stream) - 2i64).max(0)
+                                        as OPJ_UINT32
+                            }
                             // Skip the rest of the tile part header
                             if opj_stream_skip(
                                 p_stream,
-- 
2.43.0


From 65057c56abd9f92582fd35ce152b56f4f23cae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 33/83] fix: nothing to transform in tile-components without
 samples (irreversible)

---
 openjp2-rs/src/dwt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index a546d88..3e5c9eb 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -2493,7 +2493,7 @@ unsafe fn opj_dwt_decode_tile_97(
         .offset((*tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize))
     .x0) as OPJ_UINT32;
     let mut l_data_size: OPJ_SIZE_T = 0;
-    if numres == 1u32 {
+    if numres == 1u32 || w == 0 {
         return 1i32;
     }
     l_data_size = opj_dwt_max_resolution(res, numres) as OPJ_SIZE_T;
-- 
2.43.0


From 1bc818386b8f524dbe4ac91821e4a822e4ab9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 34/83] fix: tiles with components without samples can be
 decoded one by one

---
 openjp2-rs/src/tcd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 3319de3..05b487e 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1542,7 +1542,7 @@ pub(crate) unsafe fn opj_tcd_get_decoded_tile_size(
             w = ((*l_res).x1 - (*l_res).x0) as OPJ_UINT32;
             h = ((*l_res).y1 - (*l_res).y0) as OPJ_UINT32
         }
-        if h > 0u32
+        if w > 0u32
             && (2147483647u32)
                 .wrapping_mul(2u32)
                 .wrapping_add(1u32)
@@ -1975,6 +1975,10 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
                 l_size_comp = 4 as OPJ_UINT32
             }
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                // nothing of this component lies in the tile
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 9d3e6321f22eb939cb221d7e58f71c123b2fb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 35/83] fix: dimensions of reduced images that do not start at
 the origin

---
 openjp2-rs/src/image.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..63cc651 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -399,8 +399,10 @@ pub(crate) fn opj_image_comp_header_update(
             let l_comp_y0 = opj_uint_ceildiv(l_y0, comp.dy);
             let l_comp_x1 = opj_uint_ceildiv(l_x1, comp.dx);
             let l_comp_y1 = opj_uint_ceildiv(l_y1, comp.dy);
-            let l_width = opj_uint_ceildivpow2(l_comp_x1.wrapping_sub(l_comp_x0), comp.factor);
-            let l_height = opj_uint_ceildivpow2(l_comp_y1.wrapping_sub(l_comp_y0), comp.factor);
+            let l_width = opj_uint_ceildivpow2(l_comp_x1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_x0, comp.factor));
+            let l_height = opj_uint_ceildivpow2(l_comp_y1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_y0, comp.factor));
             comp.w = l_width;
             comp.h = l_height;
             comp.x0 = l_comp_x0;
-- 
2.43.0


From 90c6f617ae798c1f0025838edd9f10a53737ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 36/83] fix: find tiles whose number of tile-parts is not
 declared when decoding tiles one by one

---
 openjp2-rs/src/j2k.rs | 47 +++++++++++++------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 40df7d6..b9fa298 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11887,44 +11887,25 @@ fn opj_j2k_decode_one_tile(
         }
         // Move into the codestream to the first SOT used to decode the desired tile
         let l_tile_no_to_dec = p_j2k.m_specific_param.m_decoder.m_tile_ind_to_dec as OPJ_UINT32;
-        if !(*p_j2k.cstr_index).tile_index.is_null()
-            && !(*(*p_j2k.cstr_index).tile_index).tp_index.is_null()
-        {
-            if (*(*p_j2k.cstr_index)
-                .tile_index
-                .offset(l_tile_no_to_dec as isize))
-            .nb_tps
-                == 0
-            {
-                // the index for this tile has not been built,
-                //  so move to the last SOT read
-                if opj_stream_seek(
-                    p_stream,
-                    p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos + 2i64,
-                    p_manager,
-                ) == 0
-                {
-                    event_msg!(p_manager, EVT_ERROR, "Problem with seek function\n",);
-                    return 0i32;
-                }
-            } else if opj_stream_seek(
-                p_stream,
-                (*(*(*p_j2k.cstr_index)
-                    .tile_index
-                    .offset(l_tile_no_to_dec as isize))
-                .tp_index
-                .offset(0))
-                .start_pos
-                    + 2i64,
-                p_manager,
-            ) == 0
-            {
+        let l_tile_index = &*(*p_j2k.cstr_index)
+            .tile_index
+            .offset(l_tile_no_to_dec as isize);
+        let mut l_sot_pos = p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos;
+        if !l_tile_index.tp_index.is_null() && (*l_tile_index.tp_index).start_pos != 0 {
+            // the first tile-part of this tile is known
+            l_sot_pos = (*l_tile_index.tp_index).start_pos;
+        }
+        // otherwise it comes after the last SOT read, if any was read
+        if l_sot_pos != 0 {
+            if opj_stream_seek(p_stream, l_sot_pos + 2i64, p_manager) == 0 {
                 event_msg!(p_manager, EVT_ERROR, "Problem with seek function\n",);
                 return 0i32;
             }
             // Special case if we have previously read the EOC marker (if the previous tile getted
             // is the last )
-            if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC {
+            if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC
+                || p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
+            {
                 p_j2k.m_specific_param.m_decoder.m_state = J2KState::TPHSOT
             }
         }
-- 
2.43.0


From a37bd7c462aa4661b224baa9e90321295f2bba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 37/83] fix: make a stream of an opened file, and none of a
 file that cannot be opened

---
 openjp2-rs/src/openjpeg.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..784fd26 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -667,11 +667,13 @@ pub unsafe fn opj_stream_create_file_stream(
         return std::ptr::null_mut::<opj_stream_t>();
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
-        Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
-        }
+        Ok(name) => match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+            Ok(l_stream) => Box::into_raw(Box::new(l_stream)) as *mut opj_stream_t,
+            Err(err) => {
+                log::error!("Failed to open {name}: {err}");
+                std::ptr::null_mut::<opj_stream_t>()
+            }
+        },
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
             std::ptr::null_mut::<opj_stream_t>()
-- 
2.43.0


From 4fe77c185f2eb991b2b8cb0a979a9ebcf8c963b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 38/83] fix: a stream whose length is unset or too short has no
 bytes left

---
 openjp2-rs/src/stream.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 67df84b..6d9a2ef 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -391,13 +391,10 @@ impl Stream {
 
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
-        assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
-        let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
-        } else {
-            0i64
-        };
+        // The length may be unset, or shorter than what has been read
+        let nb = (self.m_stream_length as OPJ_OFF_T)
+            .saturating_sub(self.m_byte_offset)
+            .max(0i64);
         log::trace!("-- get_number_byte_left() = {}", nb);
         nb
     }
-- 
2.43.0


From 5af3b1b21b2d800905cdda812e9bca11a9c8c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 39/83] fix: keep what was read before a stream ends or fails

---
 openjp2-rs/src/stream.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 6d9a2ef..ded61bd 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,21 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
-                    }
+        let mut done = 0;
+        while done < buf.len() {
+            match self.m_inner.read(&mut buf[done..]) {
+                Ok(0) => break,
+                Ok(nb) => done += nb,
+                // What was read before stays read.
+                Err(_) if done > 0 => break,
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    return Err(err);
                 }
             }
         }
+        self.m_byte_offset += done as i64;
+        Ok(done)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From bcba5b8eca4e8da24abe43580cabdfc629ae453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 40/83] fix: refuse tile data that cannot be read in full when
 decoding strictly

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b9fa298..969f8ae 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4563,6 +4563,14 @@ fn opj_j2k_read_sod(
             l_current_read_size = 0 as OPJ_SIZE_T
         }
         if l_current_read_size != p_j2k.m_specific_param.m_decoder.m_sot_length as usize {
+            if p_j2k.m_cp.strict != 0 {
+                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                return 0i32;
+            }
+            if l_current_read_size == -1i32 as OPJ_SIZE_T {
+                // Not a single byte was read
+                l_current_read_size = 0 as OPJ_SIZE_T
+            }
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC
         } else {
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::TPHSOT
-- 
2.43.0


From 9d76385762b0acd948bd70e194d397c982532b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 41/83] fix: take a failed read for a missing EOC marker only
 at the end of the stream

---
 openjp2-rs/src/j2k.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 969f8ae..39ad346 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9549,7 +9549,9 @@ pub(crate) fn opj_j2k_read_tile_header(
                 // Deal with likely non conformant SPOT6 files, where the last
                 // row of tiles have TPsot == 0 and TNsot == 0, and missing EOC,
                 // but no other tile-parts were found.
-                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles {
+                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles
+                    && opj_stream_get_number_byte_left(p_stream) == 0i64
+                {
                     let mut l_tile_no_0: OPJ_UINT32 = 0;
                     l_tile_no_0 = 0u32;
                     while l_tile_no_0 < l_nb_tiles {
-- 
2.43.0


From a116fe0c7afc0707bacd43341034c442d56830b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 42/83] fix: do not fail for want of an EOC marker unless
 strict

---
 openjp2-rs/src/j2k.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 39ad346..87651be 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9724,8 +9724,13 @@ pub(crate) fn opj_j2k_decode_tile(
         if p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC {
             if opj_stream_read_data(p_stream, l_data.as_mut_ptr(), 2 as OPJ_SIZE_T, p_manager) != 2
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                if p_j2k.m_cp.strict != 0 {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+                event_msg!(p_manager, EVT_WARNING, "Stream too short\n",);
+                p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                return 1i32;
             }
             l_current_marker = J2KMarker::from_buffer(l_data.as_mut_ptr());
             if l_current_marker == J2KMarker::EOC {
-- 
2.43.0


From 69e1af7e33b260c6020cc3326f5cdff2febe8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 43/83] fix: a stream that ends in a tile-part header is not
 complete

---
 openjp2-rs/src/j2k.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 87651be..1339e83 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9472,6 +9472,12 @@ pub(crate) fn opj_j2k_read_tile_header(
             if opj_stream_get_number_byte_left(p_stream) == 0i64
                 && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
             {
+                if p_j2k.m_cp.strict != 0 {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return false;
+                }
+                p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                 break;
             }
             // If we didn't skip data before, we need to read the SOD marker
-- 
2.43.0


From ec134b6e1871781d5deb81d961b76fec5300ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 44/83] fix: decode every tile of a stream that ends in the
 first tile-part of the last one

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1339e83..116c723 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9575,7 +9575,8 @@ pub(crate) fn opj_j2k_read_tile_header(
                         event_msg!(p_manager, EVT_INFO,
                                   "Tile %u has TPsot == 0 and TNsot == 0, but no other tile-parts were found. EOC is also missing.\n",
                                   l_tile_no_0);
-                        p_j2k.m_current_tile_number = l_tile_no_0;
+                        // Other tiles may not have been decoded yet either
+                        p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
                         l_current_marker = J2KMarker::EOC;
                         p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                         break;
-- 
2.43.0


From db8f8186314da80ec874be9b0fd8dad2f675be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 45/83] fix: decode what was read of each tile when the stream
 ends within tile-parts, unless strict

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 116c723..8d35b6d 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9582,6 +9582,14 @@ pub(crate) fn opj_j2k_read_tile_header(
                         break;
                     }
                 }
+                if p_j2k.m_cp.strict == 0 && opj_stream_get_number_byte_left(p_stream) == 0i64 {
+                    // Decode what has been read of each tile
+                    event_msg!(p_manager, EVT_WARNING, "Stream too short\n",);
+                    p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                    l_current_marker = J2KMarker::EOC;
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
+                    break;
+                }
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return false;
             } else {
-- 
2.43.0


From ee651975739080b27a533751d6c70d09a4ce7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 46/83] fix: skip what there is of a tile-part outside the
 window, unless strict

---
 openjp2-rs/src/j2k.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8d35b6d..973ceed 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9443,6 +9443,17 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_manager,
                             ) != p_j2k.m_specific_param.m_decoder.m_sot_length as i64
                             {
+                                let left = opj_stream_get_number_byte_left(p_stream);
+                                if p_j2k.m_cp.strict == 0
+                                    && p_j2k.m_specific_param.m_decoder.m_sot_length as i64 > left
+                                    && opj_stream_skip(p_stream, left, p_manager) == left
+                                {
+                                    // Nothing follows what is skipped
+                                    p_j2k.m_specific_param.m_decoder.m_skip_data = false;
+                                    p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+                                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                                    break;
+                                }
                                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                                 return false;
                             }
-- 
2.43.0


From f41e47804d0e0b811a2dcf8ff54011ad98a83700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 47/83] fix: do not read cut SOP and EPH markers as packet
 headers

---
 openjp2-rs/src/t2.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index e7a1707..f29caea 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1086,6 +1086,13 @@ unsafe fn opj_t2_read_packet_header(
     if (*p_tcp).csty & 0x2u32 != 0 {
         if p_max_length < 6u32 {
             event_msg!(p_manager, EVT_WARNING, "Not enough space for expected SOP marker\n",);
+            if p_max_length > 0u32
+                && *l_current_data == 0xFFu8
+                && (p_max_length == 1u32 || *l_current_data.offset(1) == 0x91u8)
+            {
+                // The data ends within the marker segment
+                l_current_data = l_current_data.offset(p_max_length as isize)
+            }
         } else if *l_current_data as core::ffi::c_int != 0xFFi32
             || *l_current_data.offset(1) as core::ffi::c_int != 0x91i32
         {
@@ -1135,6 +1142,14 @@ unsafe fn opj_t2_read_packet_header(
                 < 2u32
             {
                 event_msg!(p_manager, EVT_WARNING, "Not enough space for expected EPH marker\n",);
+                if (*l_modified_length_ptr)
+                    .wrapping_sub(l_header_data.offset_from(*l_header_data_start) as OPJ_UINT32)
+                    == 1u32
+                    && *l_header_data == 0xFFu8
+                {
+                    // The data ends within the marker
+                    l_header_data = l_header_data.offset(1)
+                }
             } else if *l_header_data as core::ffi::c_int != 0xFFi32
                 || *l_header_data.offset(1) as core::ffi::c_int != 0x92i32
             {
@@ -1376,6 +1391,14 @@ unsafe fn opj_t2_read_packet_header(
             < 2u32
         {
             event_msg!(p_manager, EVT_WARNING, "Not enough space for expected EPH marker\n",);
+            if (*l_modified_length_ptr)
+                .wrapping_sub(l_header_data.offset_from(*l_header_data_start) as OPJ_UINT32)
+                == 1u32
+                && *l_header_data == 0xFFu8
+            {
+                // The data ends within the marker
+                l_header_data = l_header_data.offset(1)
+            }
         } else if *l_header_data as core::ffi::c_int != 0xFFi32
             || *l_header_data.offset(1) as core::ffi::c_int != 0x92i32
         {
-- 
2.43.0


From 3694c257e87a4b77feacb61bfbb48cc67b5103f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 48/83] fix: place tiles without packets of their last
 resolutions where they belong

---
 openjp2-rs/src/tcd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 05b487e..1d961b2 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -870,7 +870,6 @@ unsafe fn opj_tcd_init_tile(
     compno = 0 as OPJ_UINT32; // compno
     while compno < (*l_tile).numcomps {
         // fprintf(stderr, "compno = %d/%d\n", compno, l_tile->numcomps);
-        (*l_image_comp).resno_decoded = 0 as OPJ_UINT32;
         // border of each l_tile component (global)
         (*l_tilec).x0 = opj_int_ceildiv((*l_tile).x0, (*l_image_comp).dx as OPJ_INT32);
         (*l_tilec).y0 = opj_int_ceildiv((*l_tile).y0, (*l_image_comp).dy as OPJ_INT32);
@@ -887,6 +886,8 @@ unsafe fn opj_tcd_init_tile(
                 .numresolutions
                 .wrapping_sub((*l_cp).m_specific_param.m_dec.m_reduce)
         }
+        // Every resolution is decoded, also if there is no packet of it
+        (*l_image_comp).resno_decoded = (*l_tilec).minimum_num_resolutions.saturating_sub(1);
         if isEncoder != 0 {
             let mut l_tile_data_size: OPJ_SIZE_T = 0;
             // compute l_data_size with overflow check
-- 
2.43.0


From c6343e8c95ce3da1c3b95321d516642d6b14f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 49/83] fix: do not decode a code-block whose data was cut off
 in an earlier layer

---
 openjp2-rs/src/ht_dec.rs | 2 +-
 openjp2-rs/src/t1.rs     | 3 +++
 openjp2-rs/src/t2.rs     | 7 +++++--
 openjp2-rs/src/types.rs  | 2 ++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/ht_dec.rs b/openjp2-rs/src/ht_dec.rs
index cded279..a20196f 100644
--- a/openjp2-rs/src/ht_dec.rs
+++ b/openjp2-rs/src/ht_dec.rs
@@ -1263,7 +1263,7 @@ pub(crate) unsafe fn opj_t1_ht_decode_cblk(
     {
         return 0i32;
     }
-    if (*cblk).Mb == 0u32 {
+    if (*cblk).Mb == 0u32 || (*cblk).corrupted {
         return 1i32;
     }
     // numbps = Mb + 1 - zero_bplanes, Mb = Kmax, zero_bplanes = missing_msbs
diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 60397c8..0c482cf 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2256,6 +2256,9 @@ fn opj_t1_decode_cblk(
         {
             return 0i32;
         }
+        if (*cblk).corrupted {
+            return 1i32;
+        }
         bpno_plus_one = roishift.wrapping_add((*cblk).numbps) as OPJ_INT32;
         if bpno_plus_one >= 31i32 {
             event_msg!(
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index f29caea..3b43365 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1460,8 +1460,10 @@ unsafe fn opj_t2_read_packet_data(
                 let mut l_seg = std::ptr::null_mut::<opj_tcd_seg_t>();
                 // if we have a partial data stream, set numchunks to zero
                 // since we have no data to actually decode.
-                if partial_buffer != 0 {
-                    (*l_cblk).numchunks = 0 as OPJ_UINT32
+                // The same goes if data of a previous layer is missing.
+                if partial_buffer != 0 || (*l_cblk).corrupted {
+                    (*l_cblk).numchunks = 0 as OPJ_UINT32;
+                    (*l_cblk).corrupted = true
                 }
                 if (*l_cblk).numnewpasses == 0 {
                     // nothing to do
@@ -1507,6 +1509,7 @@ unsafe fn opj_t2_read_packet_data(
                                 // skip this codeblock since it is a partial read
                                 partial_buffer = 1i32;
                                 (*l_cblk).numchunks = 0 as OPJ_UINT32;
+                                (*l_cblk).corrupted = true;
                                 (*l_seg).numpasses = ((*l_seg).numpasses as core::ffi::c_uint)
                                     .wrapping_add((*l_seg).numnewpasses)
                                     as OPJ_UINT32;
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index d5514ad..29f2bea 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -676,6 +676,8 @@ pub(crate) struct opj_tcd_cblk_dec {
     pub m_current_max_segs: OPJ_UINT32,
     pub numchunks: OPJ_UINT32,
     pub numchunksalloc: OPJ_UINT32,
+    /// Some of the data is missing: none of it is decoded.
+    pub corrupted: bool,
     pub decoded_data: *mut OPJ_INT32,
 }
 pub(crate) type opj_tcd_cblk_dec_t = opj_tcd_cblk_dec;
-- 
2.43.0


From bcf02866c4e11d5d67c42dd438c3e6eea1038566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 50/83] fix: refuse to read a second header with one decoder

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 973ceed..ca7e924 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7949,6 +7949,10 @@ pub(crate) unsafe fn opj_j2k_read_header(
     let mut procedure_list = opj_j2k_proc_list_t::new();
     unsafe {
         // preconditions
+        if p_j2k.m_specific_param.m_decoder.m_state != J2KState::NONE {
+            event_msg!(p_manager, EVT_ERROR, "The header has already been read.\n",);
+            return 0i32;
+        }
 
         // create an empty image header
         p_j2k.m_private_image = opj_image_create0();
-- 
2.43.0


From dc01a487c014482cccc1864bde477c7168cede0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 51/83] fix: refuse to decode without a header, after a failure
 or into an image of too few components

---
 openjp2-rs/src/j2k.rs | 75 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ca7e924..6709474 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9257,6 +9257,10 @@ pub(crate) fn opj_j2k_read_tile_header(
         let mut l_tcp = std::ptr::null_mut::<opj_tcp_t>();
         let l_nb_tiles = p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th);
         // preconditions
+        if p_j2k.m_private_image.is_null() {
+            // No header, or an earlier call failed
+            return false;
+        }
 
         // Reach the End Of Codestream ?
         if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC {
@@ -9687,6 +9691,18 @@ pub(crate) fn opj_j2k_decode_tile(
         let mut l_image_for_bounds = std::ptr::null_mut::<opj_image_t>();
         // preconditions
 
+        if p_j2k.m_private_image.is_null() {
+            // An earlier call failed
+            return 0i32;
+        }
+        if p_data.is_some() && p_j2k.m_specific_param.m_decoder.m_numcomps_to_decode != 0 {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_decode_tile_data() cannot be used with opj_set_decoded_components().\n",
+            );
+            return 0i32;
+        }
         if p_j2k.m_specific_param.m_decoder.m_state & J2KState::DATA == J2KState::NONE
             || p_tile_index != p_j2k.m_current_tile_number
         {
@@ -11458,6 +11474,10 @@ pub(crate) fn j2k_dump_image_comp_header(
 pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_info_v2_t {
     unsafe {
         let mut compno: OPJ_UINT32 = 0;
+        if p_j2k.m_is_decoder == 0 || p_j2k.m_private_image.is_null() {
+            // No header has been read
+            return std::ptr::null_mut::<opj_codestream_info_v2_t>();
+        }
         let mut numcomps = (*p_j2k.m_private_image).numcomps;
         let mut l_default_tile = std::ptr::null_mut::<opj_tcp_t>();
         let mut cstr_info =
@@ -12114,6 +12134,24 @@ fn opj_j2k_move_data_from_codec_to_output_image(
     }
 }
 
+// Components beyond those of the codestream can come from an earlier decoding of
+// an image with a color palette, whose expansion is done later in jp2.c
+fn opj_j2k_drop_extra_components(p_j2k: &mut opj_j2k, p_image: &mut opj_image) {
+    unsafe {
+        if p_image.numcomps > (*p_j2k.m_private_image).numcomps {
+            let mut compno = (*p_j2k.m_private_image).numcomps;
+            while compno < p_image.numcomps {
+                opj_image_data_free(
+                    (*p_image.comps.offset(compno as isize)).data as *mut core::ffi::c_void,
+                );
+                (*p_image.comps.offset(compno as isize)).data = std::ptr::null_mut::<OPJ_INT32>();
+                compno += 1;
+            }
+            p_image.numcomps = (*p_j2k.m_private_image).numcomps
+        }
+    }
+}
+
 pub(crate) fn opj_j2k_decode(
     mut p_j2k: &mut opj_j2k,
     mut p_stream: &mut Stream,
@@ -12121,6 +12159,19 @@ pub(crate) fn opj_j2k_decode(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_read_header() should be called before opj_decode().\n",
+            );
+            return 0i32;
+        }
+        if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
+            event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
+            return 0i32;
+        }
+        opj_j2k_drop_extra_components(p_j2k, p_image);
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
@@ -12182,6 +12233,14 @@ pub(crate) fn opj_j2k_get_tile(
         let mut l_tile_x: OPJ_UINT32 = 0;
         let mut l_tile_y: OPJ_UINT32 = 0;
         let mut l_img_comp = std::ptr::null_mut::<opj_image_comp_t>();
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_read_header() should be called before opj_get_decoded_tile().\n",
+            );
+            return 0i32;
+        }
         if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
@@ -12252,21 +12311,7 @@ pub(crate) fn opj_j2k_get_tile(
             l_img_comp = l_img_comp.offset(1);
             compno += 1;
         }
-        if p_image.numcomps > (*p_j2k.m_private_image).numcomps {
-            // Can happen when calling repeatdly opj_get_decoded_tile() on an
-            // image with a color palette, where color palette expansion is done
-            // later in jp2.c
-            compno = (*p_j2k.m_private_image).numcomps;
-            while compno < p_image.numcomps {
-                opj_image_data_free(
-                    (*p_image.comps.offset(compno as isize)).data as *mut core::ffi::c_void,
-                );
-                let fresh48 = &mut (*p_image.comps.offset(compno as isize)).data;
-                *fresh48 = std::ptr::null_mut::<OPJ_INT32>();
-                compno += 1;
-            }
-            p_image.numcomps = (*p_j2k.m_private_image).numcomps
-        }
+        opj_j2k_drop_extra_components(p_j2k, p_image);
         // Destroy the previous output image
         if !p_j2k.m_output_image.is_null() {
             opj_image_destroy(p_j2k.m_output_image);
-- 
2.43.0


From 86dc1f70e2ace33506260467b3dd87534999dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 52/83] fix: let refused areas and resolution factors change
 nothing

---
 openjp2-rs/src/j2k.rs | 62 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6709474..5943e51 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -10159,12 +10159,68 @@ pub(crate) fn opj_j2k_set_decode_area(
     mut p_end_x: OPJ_INT32,
     mut p_end_y: OPJ_INT32,
     mut p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
+        // An area that is refused changes nothing
+        let area = (p_image.x0, p_image.y0, p_image.x1, p_image.y1);
+        let comps: Vec<_> = (0..p_image.numcomps as usize)
+            .map(|i| {
+                let comp = &*p_image.comps.add(i);
+                (comp.factor, comp.x0, comp.y0, comp.w, comp.h)
+            })
+            .collect();
+        let decoder = &p_j2k.m_specific_param.m_decoder;
+        let tiles = (
+            decoder.m_start_tile_x,
+            decoder.m_start_tile_y,
+            decoder.m_end_tile_x,
+            decoder.m_end_tile_y,
+            decoder.m_discard_tiles,
+        );
+        let ret = opj_j2k_apply_decode_area(
+            p_j2k, p_image, p_start_x, p_start_y, p_end_x, p_end_y, p_manager,
+        );
+        if ret == 0 {
+            (p_image.x0, p_image.y0, p_image.x1, p_image.y1) = area;
+            for (i, saved) in comps.into_iter().enumerate() {
+                let comp = &mut *p_image.comps.add(i);
+                (comp.factor, comp.x0, comp.y0, comp.w, comp.h) = saved;
+            }
+            let decoder = &mut p_j2k.m_specific_param.m_decoder;
+            (
+                decoder.m_start_tile_x,
+                decoder.m_start_tile_y,
+                decoder.m_end_tile_x,
+                decoder.m_end_tile_y,
+                decoder.m_discard_tiles,
+            ) = tiles;
+        }
+        ret
+    }
+}
+
+fn opj_j2k_apply_decode_area(
+    mut p_j2k: &mut opj_j2k,
+    mut p_image: &mut opj_image,
+    mut p_start_x: OPJ_INT32,
+    mut p_start_y: OPJ_INT32,
+    mut p_end_x: OPJ_INT32,
+    mut p_end_y: OPJ_INT32,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
         let mut l_cp: *mut opj_cp_t = &mut p_j2k.m_cp;
         let mut l_image = p_j2k.m_private_image;
         let mut ret: OPJ_BOOL = 0;
         let mut it_comp: OPJ_UINT32 = 0;
+        if l_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_read_header() should be called before opj_set_decode_area().\n",
+            );
+            return 0i32;
+        }
         if !(p_j2k.m_cp.tw == 1u32
             && p_j2k.m_cp.th == 1u32
             && !(*p_j2k.m_cp.tcps.offset(0)).m_data.is_null())
@@ -12346,7 +12402,6 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
 ) -> OPJ_BOOL {
     unsafe {
         let mut it_comp: OPJ_UINT32 = 0;
-        p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
         if !p_j2k.m_private_image.is_null()
             && !(*p_j2k.m_private_image).comps.is_null()
             && !p_j2k.m_specific_param.m_decoder.m_default_tcp.is_null()
@@ -12368,9 +12423,14 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
           );
                     return 0i32;
                 }
+                it_comp += 1;
+            }
+            it_comp = 0 as OPJ_UINT32;
+            while it_comp < (*p_j2k.m_private_image).numcomps {
                 (*(*p_j2k.m_private_image).comps.offset(it_comp as isize)).factor = res_factor;
                 it_comp += 1;
             }
+            p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
             return 1i32;
         }
         0i32
-- 
2.43.0


From 842ce9a9f0cbdd96182114fc8ce1c58112885969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 53/83] fix: report the codestream index also while lists in it
 are empty

---
 openjp2-rs/src/j2k.rs | 52 +++++++++++++------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5943e51..b90fc0e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11634,11 +11634,11 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             ((*l_cstr_index).marknum as usize)
                 .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
         ) as *mut opj_marker_info_t;
-        if (*l_cstr_index).marker.is_null() {
+        if (*l_cstr_index).marker.is_null() && (*l_cstr_index).marknum != 0 {
             opj_free(l_cstr_index as *mut core::ffi::c_void);
             return std::ptr::null_mut::<opj_codestream_index_t>();
         }
-        if !(*p_j2k.cstr_index).marker.is_null() {
+        if (*l_cstr_index).marknum != 0 && !(*p_j2k.cstr_index).marker.is_null() {
             memcpy(
                 (*l_cstr_index).marker as *mut core::ffi::c_void,
                 (*p_j2k.cstr_index).marker as *const core::ffi::c_void,
@@ -11654,7 +11654,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             (*l_cstr_index).nb_of_tiles as size_t,
             core::mem::size_of::<opj_tile_index_t>(),
         ) as *mut opj_tile_index_t;
-        if (*l_cstr_index).tile_index.is_null() {
+        if (*l_cstr_index).tile_index.is_null() && (*l_cstr_index).nb_of_tiles != 0 {
             opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
             opj_free(l_cstr_index as *mut core::ffi::c_void);
             return std::ptr::null_mut::<opj_codestream_index_t>();
@@ -11677,24 +11677,15 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .marker
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum != 0
                 {
-                    let mut it_tile_free: OPJ_UINT32 = 0;
-                    it_tile_free = 0 as OPJ_UINT32;
-                    while it_tile_free < it_tile {
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free as isize)).marker
-                                as *mut core::ffi::c_void,
-                        );
-                        it_tile_free += 1;
-                    }
-                    opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
-                    opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-                    opj_free(l_cstr_index as *mut core::ffi::c_void);
+                    j2k_destroy_cstr_index(l_cstr_index);
                     return std::ptr::null_mut::<opj_codestream_index_t>();
                 }
-                if !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
-                    .marker
-                    .is_null()
+                if (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum != 0
+                    && !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
+                        .marker
+                        .is_null()
                 {
                     memcpy(
                         (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marker
@@ -11724,28 +11715,15 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .tp_index
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps != 0
                 {
-                    let mut it_tile_free_0: OPJ_UINT32 = 0;
-                    it_tile_free_0 = 0 as OPJ_UINT32;
-                    while it_tile_free_0 < it_tile {
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free_0 as isize)).marker
-                                as *mut core::ffi::c_void,
-                        );
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free_0 as isize)).tp_index
-                                as *mut core::ffi::c_void,
-                        );
-                        it_tile_free_0 += 1;
-                    }
-                    opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
-                    opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-                    opj_free(l_cstr_index as *mut core::ffi::c_void);
+                    j2k_destroy_cstr_index(l_cstr_index);
                     return std::ptr::null_mut::<opj_codestream_index_t>();
                 }
-                if !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
-                    .tp_index
-                    .is_null()
+                if (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps != 0
+                    && !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
+                        .tp_index
+                        .is_null()
                 {
                     memcpy(
                         (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tp_index
-- 
2.43.0


From 94366e8bb9184b67daa023710d1eb5383ce811a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 54/83] fix: release the samples of earlier decodings when
 components were selected

---
 openjp2-rs/src/j2k.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b90fc0e..18af4be 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12135,9 +12135,7 @@ fn opj_j2k_move_data_from_codec_to_output_image(
             }
             compno = 0 as OPJ_UINT32;
             while compno < p_image.numcomps {
-                assert!((*(*p_j2k.m_output_image).comps.offset(compno as isize))
-                    .data
-                    .is_null());
+                // Not among the components to decode: left by an earlier call
                 opj_image_data_free(
                     (*(*p_j2k.m_output_image).comps.offset(compno as isize)).data
                         as *mut core::ffi::c_void,
@@ -12146,6 +12144,13 @@ fn opj_j2k_move_data_from_codec_to_output_image(
                 *fresh45 = std::ptr::null_mut::<OPJ_INT32>();
                 compno += 1;
             }
+            compno = 0 as OPJ_UINT32;
+            while compno < p_image.numcomps {
+                opj_image_data_free(
+                    (*p_image.comps.offset(compno as isize)).data as *mut core::ffi::c_void,
+                );
+                compno += 1;
+            }
             p_image.numcomps = p_j2k.m_specific_param.m_decoder.m_numcomps_to_decode;
             opj_free(p_image.comps as *mut core::ffi::c_void);
             p_image.comps = newcomps
-- 
2.43.0


From 819d844b9b3ead3b17df93402e17ecdde2963116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 55/83] fix: refuse encoder calls out of order and tiles that
 are not

---
 openjp2-rs/src/j2k.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 18af4be..e934a14 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7027,6 +7027,10 @@ pub(crate) fn opj_j2k_setup_encoder(
         let mut cp = std::ptr::null_mut::<opj_cp_t>();
         let mut cblkw: OPJ_UINT32 = 0;
         let mut cblkh: OPJ_UINT32 = 0;
+        if !p_j2k.m_cp.tcps.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "The encoder has already been set up.\n",);
+            return 0i32;
+        }
         if parameters.numresolution <= 0i32 || parameters.numresolution > 33i32 {
             event_msg!(
                 p_manager,
@@ -12498,6 +12502,14 @@ pub(crate) fn opj_j2k_encode(
         // preconditions
 
         p_tcd = p_j2k.m_tcd;
+        if p_tcd.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_start_compress() should be called before opj_encode().\n",
+            );
+            return 0i32;
+        }
         l_nb_tiles = p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw);
         if l_nb_tiles == 1u32 {
             l_reuse_data = 1i32
@@ -12587,6 +12599,14 @@ pub(crate) fn opj_j2k_end_compress(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     let mut procedure_list = opj_j2k_proc_list_t::new();
+    if p_j2k.m_tcd.is_null() {
+        event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "opj_start_compress() should be called before opj_end_compress().\n",
+        );
+        return 0i32;
+    }
     // customization of the encoding
     if opj_j2k_setup_end_compress(p_j2k, &mut procedure_list, p_manager) == 0 {
         return 0i32;
@@ -12606,6 +12626,14 @@ pub(crate) fn opj_j2k_start_compress(
     let mut validation_list = opj_j2k_proc_list_t::new();
     let mut procedure_list = opj_j2k_proc_list_t::new();
     // preconditions
+    if p_j2k.m_cp.tcps.is_null() || !p_j2k.m_private_image.is_null() {
+        event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "opj_start_compress() should be called once, after opj_setup_encoder().\n",
+        );
+        return 0i32;
+    }
 
     unsafe {
         p_j2k.m_private_image = opj_image_create0();
@@ -12656,7 +12684,17 @@ fn opj_j2k_pre_write_tile(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        if p_tile_index != p_j2k.m_current_tile_number {
+        if p_j2k.m_tcd.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_start_compress() should be called before writing tiles.\n",
+            );
+            return 0i32;
+        }
+        if p_tile_index != p_j2k.m_current_tile_number
+            || p_tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th)
+        {
             event_msg!(p_manager, EVT_ERROR, "The given tile index does not match.",);
             return 0i32;
         }
-- 
2.43.0


From 40210e6fa74eb33e24db5ff7d718017c606d9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 56/83] fix: do not report decoder information of encoders

---
 openjp2-rs/src/j2k.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e934a14..926a72f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11299,7 +11299,7 @@ pub(crate) fn j2k_dump(mut p_j2k: &mut opj_j2k, mut flag: OPJ_INT32, mut out_str
             j2k_dump_image_header(&mut *p_j2k.m_private_image, 0i32, out_stream);
         }
         // Dump the codestream info from main header
-        if flag & 2i32 != 0 && !p_j2k.m_private_image.is_null() {
+        if flag & 2i32 != 0 && p_j2k.m_is_decoder != 0 && !p_j2k.m_private_image.is_null() {
             opj_j2k_dump_MH_info(p_j2k, out_stream);
         }
         // Dump all tile/codestream info
@@ -11323,7 +11323,7 @@ pub(crate) fn j2k_dump(mut p_j2k: &mut opj_j2k, mut flag: OPJ_INT32, mut out_str
         // Dump the codestream info of the current tile
         if flag & 4i32 != 0 {};
         // Dump the codestream index from main header
-        if flag & 16i32 != 0 {
+        if flag & 16i32 != 0 && !p_j2k.cstr_index.is_null() {
             opj_j2k_dump_MH_index(p_j2k, out_stream);
         }
         // Dump the codestream index of the current tile
@@ -11624,6 +11624,10 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
 
 pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_index_t {
     unsafe {
+        if p_j2k.cstr_index.is_null() {
+            // Not a decoder
+            return std::ptr::null_mut::<opj_codestream_index_t>();
+        }
         let mut l_cstr_index =
             opj_calloc(1i32 as size_t, core::mem::size_of::<opj_codestream_index_t>())
                 as *mut opj_codestream_index_t;
-- 
2.43.0


From 43bdd6017b621ccb3002a6181d6251eca0cbf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 57/83] fix: release the samples of a refused tile when
 encoding a single tile

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 926a72f..0d948ab 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12534,6 +12534,10 @@ pub(crate) fn opj_j2k_encode(
                 let mut l_tilec = (*(*(*p_tcd).tcd_image).tiles).comps.offset(j as isize);
                 if l_reuse_data != 0 {
                     let mut l_img_comp = (*(*p_tcd).image).comps.offset(j as isize);
+                    if (*l_tilec).ownsData != 0 {
+                        // Left by a tile that was refused
+                        opj_image_data_free((*l_tilec).data as *mut core::ffi::c_void);
+                    }
                     (*l_tilec).data = (*l_img_comp).data;
                     (*l_tilec).ownsData = 0i32
                 } else if opj_alloc_tile_component_data(l_tilec) == 0 {
-- 
2.43.0


From 08ecb2cd2811ffe2ff843f6658e4322addf99402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 58/83] fix: refuse to end an encoding while tiles are missing

---
 openjp2-rs/src/j2k.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0d948ab..a7b1338 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12615,6 +12615,16 @@ pub(crate) fn opj_j2k_end_compress(
         );
         return 0i32;
     }
+    if p_j2k.m_current_tile_number < p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th) {
+        event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "Only %d of %d tiles were written before opj_end_compress().\n",
+            p_j2k.m_current_tile_number,
+            p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th),
+        );
+        return 0i32;
+    }
     // customization of the encoding
     if opj_j2k_setup_end_compress(p_j2k, &mut procedure_list, p_manager) == 0 {
         return 0i32;
-- 
2.43.0


From 6eaf25f305ca14fc067c9931988121bf7cdc6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 59/83] fix: inclusion of a code-block from layer 1000 on is
 not taken for granted (tag tree bound)

---
 openjp2-rs/src/t2.rs  | 5 +++--
 openjp2-rs/src/tgt.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 3b43365..3831197 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1211,8 +1211,9 @@ unsafe fn opj_t2_read_packet_header(
                     // if cblk not yet included --> zero-bitplane tagtree
                     if (*l_cblk).numsegs == 0 {
                         let mut i = 0 as OPJ_UINT32;
-                        while opj_tgt_decode(l_bio, (*l_prc_0).imsbtree, cblkno, i as OPJ_INT32)
-                            == 0
+                        while i < 1000
+                            && opj_tgt_decode(l_bio, (*l_prc_0).imsbtree, cblkno, i as OPJ_INT32)
+                                == 0
                         {
                             i += 1;
                         }
diff --git a/openjp2-rs/src/tgt.rs b/openjp2-rs/src/tgt.rs
index 21579b5..731e435 100644
--- a/openjp2-rs/src/tgt.rs
+++ b/openjp2-rs/src/tgt.rs
@@ -278,7 +278,8 @@ pub(crate) unsafe fn opj_tgt_reset(mut p_tree: *mut opj_tgt_tree_t) {
     l_current_node = (*p_tree).nodes;
     i = 0 as OPJ_UINT32;
     while i < (*p_tree).numnodes {
-        (*l_current_node).value = 999i32;
+        // More than any layer number (65534 at most)
+        (*l_current_node).value = 65536i32;
         (*l_current_node).low = 0i32;
         (*l_current_node).known = 0 as OPJ_UINT32;
         l_current_node = l_current_node.offset(1);
-- 
2.43.0


From 7b047f2ff411d35eb83ae1f7e132b1aa1777aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 60/83] fix: PCRL and CPRL do not drop the precincts of low
 resolutions when there are many decomposition levels

---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index f8b819e..cea2560 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -807,8 +807,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << levelno) >> levelno != (*comp).dx as u64
+                        || (((*comp).dy as u64) << levelno) >> levelno != (*comp).dy as u64
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -833,8 +833,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << rpx) >> rpx != (*comp).dx as u64
+                        || (((*comp).dy as u64) << rpy) >> rpy != (*comp).dy as u64
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -1086,8 +1086,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << levelno) >> levelno != (*comp).dx as u64
+                        || (((*comp).dy as u64) << levelno) >> levelno != (*comp).dy as u64
                     {
                         current_block = 3123434771885419771;
                         continue;
@@ -1112,8 +1112,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << rpx) >> rpx != (*comp).dx as u64
+                        || (((*comp).dy as u64) << rpy) >> rpy != (*comp).dy as u64
                     {
                         current_block = 3123434771885419771;
                         continue;
-- 
2.43.0


From ac49c4f7050debf9a2eef80ea96651259e904f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 61/83] fix: the index does not report uninitialised memory for
 tile-parts that were not read

---
 openjp2-rs/src/j2k.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a7b1338..fb0d2d5 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3961,6 +3961,10 @@ fn opj_j2k_read_sot(
         .offset(p_j2k.m_current_tile_number as isize))
       .current_tpsno = l_current_part;
       if l_num_parts != 0u32 {
+          let l_old_nb_tps = (*(*p_j2k.cstr_index)
+            .tile_index
+            .offset(p_j2k.m_current_tile_number as isize))
+          .current_nb_tps;
         (*(*p_j2k.cstr_index)
           .tile_index
           .offset(p_j2k.m_current_tile_number as isize))
@@ -4027,7 +4031,15 @@ fn opj_j2k_read_sot(
             .tile_index
             .offset(p_j2k.m_current_tile_number as isize))
           .tp_index;
-          *fresh18 = new_tp_index
+          *fresh18 = new_tp_index;
+          if l_num_parts > l_old_nb_tps {
+            // Nothing is known of the tile-parts that were not read yet
+            std::ptr::write_bytes(
+              new_tp_index.offset(l_old_nb_tps as isize),
+              0,
+              (l_num_parts - l_old_nb_tps) as usize,
+            );
+          }
         }
       } else {
         /*if (!p_j2k->cstr_index->tile_index[p_j2k->m_current_tile_number].tp_index)*/
@@ -4077,6 +4089,10 @@ fn opj_j2k_read_sot(
           .current_nb_tps
         {
           let mut new_tp_index_0 = std::ptr::null_mut::<opj_tp_index_t>();
+          let l_old_nb_tps = (*(*p_j2k.cstr_index)
+            .tile_index
+            .offset(p_j2k.m_current_tile_number as isize))
+          .current_nb_tps;
           (*(*p_j2k.cstr_index)
             .tile_index
             .offset(p_j2k.m_current_tile_number as isize))
@@ -4119,7 +4135,12 @@ fn opj_j2k_read_sot(
             .tile_index
             .offset(p_j2k.m_current_tile_number as isize))
           .tp_index;
-          *fresh21 = new_tp_index_0
+          *fresh21 = new_tp_index_0;
+          std::ptr::write_bytes(
+            new_tp_index_0.offset(l_old_nb_tps as isize),
+            0,
+            (l_current_part + 1 - l_old_nb_tps) as usize,
+          );
         }
       }
     }
-- 
2.43.0


From c275abc42cb1229cf07305e86182daca0c929f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 62/83] fix: the index reports the number of each tile

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fb0d2d5..6e70c3f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11695,6 +11695,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             let mut it_tile = 0 as OPJ_UINT32;
             it_tile = 0 as OPJ_UINT32;
             while it_tile < (*l_cstr_index).nb_of_tiles {
+                (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tileno = it_tile;
                 // Tile Marker
                 (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum =
                     (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).marknum;
-- 
2.43.0


From 7b676c09e4990a39211ef5d273fe9114b59a8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 63/83] fix: the codestream information gives the precinct
 sizes of all resolutions and the 97 step sizes of 32 levels

---
 openjp2-rs/src/j2k.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6e70c3f..a7600ba 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11605,17 +11605,12 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
             (*l_tccp_info).cblkh = (*l_tccp).cblkh;
             (*l_tccp_info).cblksty = (*l_tccp).cblksty;
             (*l_tccp_info).qmfbid = (*l_tccp).qmfbid;
-            if (*l_tccp).numresolutions < 33u32 {
-                memcpy(
-                    (*l_tccp_info).prch.as_mut_ptr() as *mut core::ffi::c_void,
-                    (*l_tccp).prch.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
-                );
-                memcpy(
-                    (*l_tccp_info).prcw.as_mut_ptr() as *mut core::ffi::c_void,
-                    (*l_tccp).prcw.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
-                );
+            let l_numres = (*l_tccp).numresolutions as usize;
+            if l_numres <= 33 {
+                (&mut (*l_tccp_info).prch)[..l_numres]
+                    .copy_from_slice(&(&(*l_tccp).prch)[..l_numres]);
+                (&mut (*l_tccp_info).prcw)[..l_numres]
+                    .copy_from_slice(&(&(*l_tccp).prcw)[..l_numres]);
             }
             // quantization style
             (*l_tccp_info).qntsty = (*l_tccp).qntsty;
@@ -11625,7 +11620,7 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
             } else {
                 ((*l_tccp).numresolutions as OPJ_INT32 * 3i32) - 2i32
             };
-            if numbands < 3i32 * 33i32 - 2i32 {
+            if numbands <= 3i32 * 33i32 - 2i32 {
                 bandno = 0i32;
                 while bandno < numbands {
                     (*l_tccp_info).stepsizes_mant[bandno as usize] =
-- 
2.43.0


From f230a50251f29a2402f46a9c9c1d2979511c138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 64/83] fix: the samples of a palette image are new ones, not
 those of the component they are looked up with; a channel in direct use keeps
 its depth

---
 openjp2-rs/src/jp2.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..e026ea1 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -587,8 +587,16 @@ fn opj_jp2_apply_pclr(
 
         // Palette mapping:
         *new_comp = *old_comp;
-        new_comp.prec = channel.size as OPJ_UINT32;
-        new_comp.sgnd = channel.sign as OPJ_UINT32;
+        // The samples of the old component stay with it.
+        new_comp.data = std::ptr::null_mut();
+        if !new_comp.alloc_data() {
+            event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
+            return 0;
+        }
+        if cmap.mtyp != 0 {
+            new_comp.prec = channel.size as OPJ_UINT32;
+            new_comp.sgnd = channel.sign as OPJ_UINT32;
+        }
 
         // Palette mapping:
         let src = old_comp.data().expect("Source data shouldn't be null"); // verified above
-- 
2.43.0


From 8a54e2a11d80793f38a57f44a43e3e3df19917a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 65/83] fix: signed palette columns have negative values; the
 capacity of a palette does not overflow

---
 openjp2-rs/src/jp2.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index e026ea1..61f6b2e 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -662,7 +662,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_entries as usize * nr_channels as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
@@ -679,7 +679,11 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                 bytes_to_read = core::mem::size_of::<u32>()
             }
             if let Ok(value) = buf.read_uint::<BigEndian>(bytes_to_read) {
-                entries.push(value as u32);
+                let mut value = value as u32;
+                if channel.sign != 0 && size < 32 && value >> (size - 1) & 1 != 0 {
+                    value |= u32::MAX << size;
+                }
+                entries.push(value);
             } else {
                 // Truncated data.
                 return 0;
-- 
2.43.0


From 5ac67adde4d8cb7ed77ef7aa08e07d6c72cd7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 66/83] fix: channel definitions that leave out channel 0 are
 incomplete

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 61f6b2e..ee19bca 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -404,7 +404,7 @@ fn opj_jp2_check_color(
         // issue 397
         // ISO 15444-1 states that if cdef is present, it shall contain a complete list of channel
         // definitions.
-        for chan in 1..nr_channels {
+        for chan in 0..nr_channels {
             let has = cdef.info.iter().any(|&x| x.cn as u32 == chan);
             if !has {
                 event_msg!(p_manager, EVT_ERROR, "Incomplete channel definitions.\n",);
-- 
2.43.0


From 02c3a59a8fd4079e5fe8582e7c7656089872f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 67/83] fix: a channel keeps its type when its colour channel
 is put in its place

---
 openjp2-rs/src/jp2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index ee19bca..358413d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -788,9 +788,10 @@ fn opj_jp2_apply_cdef(
                 if cn != acn && info.typ == 0 {
                     let acn_comp = &mut comps[acn as usize];
                     std::mem::swap(&mut cn_comp, &mut (*acn_comp));
+                    acn_comp.alpha = info.typ;
                     // Swap channels in following channel definitions, don't bother with j <= i that
                     // are already processed
-                    for j in i..n {
+                    for j in i + 1..n {
                         let info = &mut cdef.info[j];
                         if info.cn == cn {
                             info.cn = acn
@@ -799,8 +800,9 @@ fn opj_jp2_apply_cdef(
                         }
                         // asoc is related to color index. Do not update.
                     }
+                } else {
+                    cn_comp.alpha = info.typ;
                 }
-                cn_comp.alpha = info.typ;
                 comps[cn as usize] = cn_comp;
             }
         }
-- 
2.43.0


From 717c430ea204fc85598efa2611e332e5d3cf8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 68/83] fix: palette and channel definitions apply to every
 decoded tile and area, not just the first

---
 openjp2-rs/src/jp2.rs   | 35 +++++++++++++++++++++++++++++------
 openjp2-rs/src/types.rs |  1 +
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 358413d..b9a56ec 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -742,11 +742,12 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
 
 fn opj_jp2_apply_cdef(
     image: &mut opj_image_t,
-    color: &mut opj_jp2_color,
+    color: &opj_jp2_color,
     manager: &mut opj_event_mgr,
 ) {
-    let cdef = if let Some(cdef) = &mut color.jp2_cdef {
-        cdef
+    // A copy is reordered: the definitions apply to each decoded image.
+    let mut cdef = if let Some(cdef) = &color.jp2_cdef {
+        cdef.clone()
     } else {
         return;
     };
@@ -807,8 +808,6 @@ fn opj_jp2_apply_cdef(
             }
         }
     }
-    cdef.info.clear();
-    color.jp2_cdef = None;
 }
 
 // jp2_apply_cdef()
@@ -984,6 +983,7 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
         }
     }
     if jp2.ignore_pclr_cmap_cdef == 0 {
+        jp2.color_applied = jp2.color.jp2_pclr.is_some() || jp2.color.jp2_cdef.is_some();
         if opj_jp2_check_color(p_image, &mut jp2.color, p_manager) == 0 {
             return 0;
         }
@@ -998,18 +998,38 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
         }
         // Apply the color space if needed
         if jp2.color.jp2_cdef.is_some() {
-            opj_jp2_apply_cdef(p_image, &mut jp2.color, p_manager);
+            opj_jp2_apply_cdef(p_image, &jp2.color, p_manager);
         }
     }
     1
 }
 
+/// An image that was already decoded into has the channels of the palette and of the channel
+/// definitions: gives it the components of the codestream again.
+fn opj_jp2_restore_components(jp2: &mut opj_jp2, image: &mut opj_image) {
+    if !jp2.color_applied {
+        return;
+    }
+    jp2.color_applied = false;
+    let comps = match unsafe { jp2.j2k.m_private_image.as_ref() }.and_then(|image| image.comps()) {
+        Some(comps) => comps,
+        None => return,
+    };
+    if image.alloc_comps(comps.len() as u32, true) {
+        for (dest, src) in image.comps_mut().unwrap().iter_mut().zip(comps) {
+            *dest = *src;
+            dest.data = std::ptr::null_mut();
+        }
+    }
+}
+
 pub(crate) fn opj_jp2_decode(
     jp2: &mut opj_jp2,
     p_stream: &mut Stream,
     p_image: &mut opj_image,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    opj_jp2_restore_components(jp2, p_image);
     // J2K decoding
     if opj_j2k_decode(&mut jp2.j2k, p_stream, p_image, p_manager) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
@@ -1980,6 +2000,7 @@ pub(crate) fn opj_jp2_set_decode_area(
     p_end_y: OPJ_INT32,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    opj_jp2_restore_components(p_jp2, p_image);
     opj_j2k_set_decode_area(
         &mut p_jp2.j2k,
         p_image,
@@ -2003,6 +2024,7 @@ pub(crate) fn opj_jp2_get_tile(
         EVT_WARNING,
         "JP2 box which are after the codestream will not be read by this function.\n",
     );
+    opj_jp2_restore_components(p_jp2, p_image);
     if opj_j2k_get_tile(&mut p_jp2.j2k, p_stream, p_image, p_manager, tile_index) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
         return 0i32;
@@ -2040,6 +2062,7 @@ pub(crate) fn opj_jp2_create(mut p_is_decoder: OPJ_BOOL) -> Option<opj_jp2> {
         jp2_state: 0,
         jp2_img_state: 0,
         ignore_pclr_cmap_cdef: 0,
+        color_applied: false,
         has_jp2h: 0,
         has_ihdr: 0,
         // Color structure
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 29f2bea..8e3e455 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -262,6 +262,7 @@ pub(crate) struct opj_jp2 {
     pub jp2_img_state: OPJ_UINT32,
     pub color: opj_jp2_color,
     pub ignore_pclr_cmap_cdef: OPJ_BOOL,
+    pub color_applied: bool,
     pub has_jp2h: OPJ_BYTE,
     pub has_ihdr: OPJ_BYTE,
 }
-- 
2.43.0


From 0e85b5889e58eb6964506c3f2bfaaea09ba286d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 69/83] fix: CIELab without parameters has the word that says
 so

---
 openjp2-rs/src/jp2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index b9a56ec..317071d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -913,6 +913,9 @@ fn opj_jp2_read_colr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
             let mut il = 0x443530u32;
             let mut icc_profile = Vec::with_capacity(9 * core::mem::size_of::<OPJ_UINT32>());
             icc_profile.write_all(&14u32.to_ne_bytes()).unwrap();
+            if buf.is_empty() {
+                icc_profile.write_all(&0x44454600u32.to_ne_bytes()).unwrap();
+            }
             if buf.len() == 28 {
                 rl = buf
                     .read_u32::<BigEndian>()
-- 
2.43.0


From 5a68e15b7b50ca24bf70173cf213ebe7aaa5fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 70/83] fix: components of different signedness are announced
 in a bpcc box

---
 openjp2-rs/src/jp2.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 317071d..09ed790 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1258,8 +1258,7 @@ pub(crate) fn opj_jp2_setup_encoder(
     jp2.bpc = depth_0.wrapping_add(sign << 7);
     for comp in &comps[1..] {
         let mut depth = comp.prec.wrapping_sub(1);
-        // sign = comp.sgnd;
-        if depth_0 != depth {
+        if depth_0 != depth || sign != comp.sgnd {
             jp2.bpc = 255 as OPJ_UINT32
         }
     }
-- 
2.43.0


From 67b01e9f02e937163cf38c4aa2c6fa50763a211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 71/83] fix: the ICC profile of an image is written instead of
 ending the program

---
 openjp2-rs/src/jp2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 09ed790..cc6b363 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1277,7 +1277,9 @@ pub(crate) fn opj_jp2_setup_encoder(
     // Colour Specification box
     if image.icc_profile_len != 0 {
         jp2.meth = 2 as OPJ_UINT32;
-        jp2.enumcs = 0 as OPJ_UINT32
+        jp2.enumcs = 0 as OPJ_UINT32;
+        jp2.color.icc_profile = image.icc_profile().map(|profile| profile.to_vec());
+        jp2.color.icc_profile_len = image.icc_profile_len
     } else {
         jp2.meth = 1 as OPJ_UINT32;
         if image.color_space as core::ffi::c_int == 1 {
-- 
2.43.0


From e2781845c5d1daf4fddbecb37d40533d48e14532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 72/83] fix: a component mapping box may precede the palette
 box

---
 openjp2-rs/src/jp2.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index cc6b363..707b191 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1780,6 +1780,8 @@ fn opj_jpip_skip_iptr(
 fn opj_jp2_read_jp2h(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
     let mut header = Jp2BoxHeader::default();
     let mut l_has_ihdr = false;
+    // A component mapping box may precede the palette box it depends on.
+    let mut early_cmap = None;
 
     // make sure the box is well placed
     if jp2.jp2_state & JP2_STATE_FILE_TYPE != JP2_STATE_FILE_TYPE {
@@ -1810,7 +1812,9 @@ fn opj_jp2_read_jp2h(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         }
         let (content, rest) = buf.split_at(content_length);
         buf = rest;
-        if header.ty.is_image_header() {
+        if header.ty == Jp2BoxType::CMAP && jp2.color.jp2_pclr.is_none() && early_cmap.is_none() {
+            early_cmap = Some((header, content));
+        } else if header.ty.is_image_header() {
             if header.read_content(jp2, content, p_manager).is_err() {
                 return 0;
             }
@@ -1821,6 +1825,11 @@ fn opj_jp2_read_jp2h(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
             l_has_ihdr = true
         }
     }
+    if let Some((header, content)) = early_cmap {
+        if header.read_content(jp2, content, p_manager).is_err() {
+            return 0;
+        }
+    }
     if !l_has_ihdr {
         event_msg!(
             p_manager,
-- 
2.43.0


From f9b6603a082fe6e8f29f29c2e767aed475ff0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 73/83] fix: a comment that no COM segment can hold is refused

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a7600ba..3a395e7 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1545,6 +1545,10 @@ fn opj_j2k_write_com(
         l_comment = p_j2k.m_cp.comment;
         l_comment_size = strlen(l_comment) as OPJ_UINT32;
         l_total_com_size = l_comment_size.wrapping_add(6u32);
+        if l_total_com_size.wrapping_sub(2u32) > 65535u32 {
+            event_msg!(p_manager, EVT_ERROR, "The comment is too long for a COM marker\n",);
+            return 0i32;
+        }
         if l_total_com_size > p_j2k.m_specific_param.m_encoder.m_header_tile_data_size {
             let mut new_header_tile_data = opj_realloc(
                 p_j2k.m_specific_param.m_encoder.m_header_tile_data as *mut core::ffi::c_void,
-- 
2.43.0


From 8145312f9966b5d013ddebe1a97688a26e87d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 74/83] fix: the irreversible transform of a single odd sample
 doubles it

---
 openjp2-rs/src/dwt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 3e5c9eb..17b7a76 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -757,6 +757,10 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_h_one_row_real(
     let sn = (width.wrapping_add(if even != 0 { 1 } else { 0 }) >> 1i32) as OPJ_INT32;
     let dn = width.wrapping_sub(sn as OPJ_UINT32) as OPJ_INT32;
     if width == 1u32 {
+        if even == 0 {
+            // a single high-pass sample
+            *row *= 2f32;
+        }
         return;
     }
     memcpy(
@@ -1081,6 +1085,14 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_v_real(
     let mut a: OPJ_INT32 = 0;
     let mut b: OPJ_INT32 = 0;
     if height == 1u32 {
+        if even == 0 {
+            // single high-pass samples
+            let mut c = 0;
+            while c < cols {
+                *array.offset(c as isize) *= 2f32;
+                c += 1;
+            }
+        }
         return;
     }
     opj_dwt_fetch_cols_vertical_pass(arrayIn, tmpIn, height, stride_width, cols);
-- 
2.43.0


From 90444578a0bcc7863e3f89490eb66879a6b8b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 75/83] fix: coefficients the coder cannot carry are refused
 instead of written as garbage

---
 openjp2-rs/src/t1.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 0c482cf..a923ac3 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2489,6 +2489,28 @@ fn opj_t1_cblk_encode_processor(mut user_data: *mut core::ffi::c_void) {
                     .wrapping_mul(tile_w as usize)
                     .wrapping_add(x as OPJ_SIZE_T),
             ) as *mut OPJ_INT32;
+            // Coefficients are handled with T1_NMSEDEC_FRACBITS more bits
+            let limit = 1u32 << (31 - T1_NMSEDEC_FRACBITS);
+            let mut fits = true;
+            j = 0 as OPJ_UINT32;
+            while j < cblk_h {
+                i = 0 as OPJ_UINT32;
+                while i < cblk_w {
+                    let v = tiledp.offset(j.wrapping_mul(tile_w).wrapping_add(i) as isize);
+                    fits &= if (*tccp).qmfbid == 1 {
+                        (*v).unsigned_abs() < limit
+                    } else {
+                        (*(v as *mut OPJ_FLOAT32) / (*band).stepsize).abs() < limit as OPJ_FLOAT32
+                    };
+                    i += 1
+                }
+                j += 1
+            }
+            if !fits {
+                core::ptr::write_volatile((*job).pret, 0i32);
+                opj_free(job as *mut core::ffi::c_void);
+                return;
+            }
             if (*tccp).qmfbid == 1 {
                 let mut tiledp_u = tiledp as *mut OPJ_UINT32;
                 let mut t1data = t1.data.as_mut_ptr() as *mut OPJ_UINT32;
@@ -2605,6 +2627,10 @@ fn opj_t1_cblk_encode_processor(mut user_data: *mut core::ffi::c_void) {
                 (*job).mct_numcomps,
             );
             (*(*job).tile).distotile += cumwmsedec;
+            if (*cblk).numbps as OPJ_INT32 > (*band).numbps {
+                // more bit-planes than the guard bits leave room for
+                core::ptr::write_volatile((*job).pret, 0i32);
+            }
             opj_free(job as *mut core::ffi::c_void);
         })
     }
-- 
2.43.0


From c62835b1dd4dc683e6eaf783e77b11ec2b49c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 76/83] fix: the inverse of a component transform is computed,
 and singular ones are refused

---
 openjp2-rs/src/invert.rs | 236 +++++++++------------------------------
 1 file changed, 51 insertions(+), 185 deletions(-)

diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..8d58189 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -11,32 +11,26 @@ pub(crate) unsafe fn opj_matrix_inversion_f(
     mut pDestMatrix: &mut [f32],
     mut nb_compo: usize,
 ) -> bool {
-    let mut lPermutations = SmallVec::<[u32; 0]>::with_capacity(nb_compo);
-    let mut src_tmp = SmallVec::<[f32; 0]>::with_capacity(nb_compo);
-    let mut dest_tmp = SmallVec::<[f32; 0]>::with_capacity(nb_compo);
-    let mut swap_area = SmallVec::<[f32; 0]>::with_capacity(nb_compo);
-    lPermutations.resize(nb_compo, 0);
-    src_tmp.resize(nb_compo, 0.0);
-    dest_tmp.resize(nb_compo, 0.0);
-    swap_area.resize(nb_compo, 0.0);
-    if !opj_lupDecompose(
-        pSrcMatrix,
-        lPermutations.as_mut_slice(),
-        swap_area.as_mut_slice(),
-        nb_compo,
-    ) {
+    let mut lPermutations = SmallVec::<[usize; 0]>::with_capacity(nb_compo);
+    let mut matrix = SmallVec::<[f64; 0]>::with_capacity(nb_compo * nb_compo);
+    let mut vector = SmallVec::<[f64; 0]>::with_capacity(nb_compo);
+    let mut result = SmallVec::<[f64; 0]>::with_capacity(nb_compo);
+    lPermutations.extend(0..nb_compo);
+    matrix.extend(pSrcMatrix.iter().map(|v| *v as f64));
+    vector.resize(nb_compo, 0.0);
+    result.resize(nb_compo, 0.0);
+    if !opj_lupDecompose(&mut matrix, &mut lPermutations, nb_compo) {
         return false;
     }
-    opj_lupInvert(
-        pSrcMatrix,
-        pDestMatrix,
-        nb_compo,
-        lPermutations.as_slice(),
-        src_tmp.as_mut_slice(),
-        dest_tmp.as_mut_slice(),
-        swap_area.as_mut_slice(),
-    );
-    true
+    for j in 0..nb_compo {
+        vector.fill(0.0);
+        vector[j] = 1.0;
+        opj_lupSolve(&mut result, &matrix, &vector, &lPermutations, nb_compo);
+        for i in 0..nb_compo {
+            pDestMatrix[i * nb_compo + j] = result[i] as f32;
+        }
+    }
+    pDestMatrix.iter().all(|v| v.is_finite())
 }
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
@@ -71,192 +65,64 @@ pub(crate) unsafe fn opj_matrix_inversion_f(
 // ==========================================================
 // Local functions
 // ==========================================================
-fn opj_lupDecompose(
-    matrix: &mut [f32],
-    permutations: &mut [u32],
-    p_swap_area: &mut [f32],
-    nb_compo: usize,
-) -> bool {
-    let mut tmp_permutations = 0;
-    let mut k2 = 0;
-    let mut temp = 0.0;
-    let l_last_column = nb_compo - 1;
-    let l_swap_size = nb_compo * std::mem::size_of::<f32>();
-    let mut l_tmp_matrix = 0;
-    let mut l_column_matrix = 0;
-    let mut l_dest_matrix = 0;
-    let mut offset = 1;
-    let mut l_stride = nb_compo - 1;
-    // initialize permutations
-    for i in 0..nb_compo {
-        permutations[i] = i as u32;
-    }
-    // now make a pivot with column switch
-    for k in 0..l_last_column {
-        // take the middle element
-        l_column_matrix = l_tmp_matrix + k;
+fn opj_lupDecompose(matrix: &mut [f64], permutations: &mut [usize], nb_compo: usize) -> bool {
+    // what is smaller than this is due to rounding
+    let largest = matrix.iter().fold(0.0, |m: f64, v| m.max(v.abs()));
+    let nothing = largest * nb_compo as f64 * 1e-12;
+    for k in 0..nb_compo {
         // make permutation with the biggest value in the column
         let mut p = 0.0;
+        let mut k2 = k;
         for i in k..nb_compo {
-            temp = matrix[l_column_matrix].abs();
+            let temp = matrix[i * nb_compo + k].abs();
             if temp > p {
                 p = temp;
                 k2 = i;
             }
-            // next line
-            l_column_matrix += nb_compo;
         }
-        // a whole rest of 0 -> non singular
-        if p == 0.0 {
+        // a whole rest of 0 -> singular
+        if !(p > nothing) || !p.is_finite() {
             return false;
         }
-        // should we permute ?
         if k2 != k {
             // exchange of line
-            // k2 > k
-            let dst_p = tmp_permutations + k2 - k;
-            // swap indices
-            permutations.swap(tmp_permutations, dst_p);
-            // and swap entire line.
-            l_column_matrix = l_tmp_matrix + (k2 - k) * nb_compo;
-            p_swap_area.copy_from_slice(&matrix[l_column_matrix..l_column_matrix + l_swap_size]);
-            matrix.copy_within(l_tmp_matrix..l_tmp_matrix + l_swap_size, l_column_matrix);
-            matrix[l_tmp_matrix..l_tmp_matrix + l_swap_size]
-                .copy_from_slice(&p_swap_area[..l_swap_size]);
+            permutations.swap(k, k2);
+            for j in 0..nb_compo {
+                matrix.swap(k * nb_compo + j, k2 * nb_compo + j);
+            }
         }
-        // now update data in the rest of the line and line after
-        l_dest_matrix = l_tmp_matrix + k;
-        l_column_matrix = l_dest_matrix + nb_compo;
-        // take the middle element
-        let temp = matrix[l_dest_matrix];
-        l_dest_matrix += 1;
-        // now compute up data (i.e. coeff up of the diagonal).
-        for _ in offset..nb_compo {
-            // divide the lower column elements by the diagonal value
-            // matrix[i][k] /= matrix[k][k];
-            // p = matrix[i][k]
-            let p = matrix[l_column_matrix] / temp;
-            l_column_matrix += 1;
-            matrix[l_column_matrix] = p;
-
-            for j in offset..nb_compo {
-                matrix[l_dest_matrix + j] -= p * matrix[l_dest_matrix + j - 1];
+        // now update data in the lines after
+        for i in k + 1..nb_compo {
+            let p = matrix[i * nb_compo + k] / matrix[k * nb_compo + k];
+            matrix[i * nb_compo + k] = p;
+            for j in k + 1..nb_compo {
+                matrix[i * nb_compo + j] -= p * matrix[k * nb_compo + j];
             }
-            // come back to the k+1th element
-            l_dest_matrix -= l_stride;
-            // go to kth element of the next line
-            l_column_matrix += k;
         }
-        // offset is now k+2
-        offset += 1;
-        // 1 element less for stride
-        l_stride -= 1;
-        // next line
-        l_tmp_matrix += nb_compo;
     }
     true
 }
 // *
 // LUP solving
 fn opj_lupSolve(
-    p_result: &mut [f32],
-    p_matrix: &[f32],
-    p_vector: &[f32],
-    p_permutations: &[u32],
+    p_result: &mut [f64],
+    p_matrix: &[f64],
+    p_vector: &[f64],
+    p_permutations: &[usize],
     nb_compo: usize,
-    p_intermediate_data: &mut [f32],
 ) {
-    let mut k: i32 = 0;
-    let mut i: usize = 0;
-    let mut j: usize = 0;
-    let mut sum: f32 = 0.;
-    let mut u: f32 = 0.;
-    let l_stride = nb_compo + 1;
-    let mut l_current_ptr: usize;
-    let mut l_intermediate_ptr: usize;
-    let mut l_dest_ptr: usize;
-    let mut l_tmp_matrix: usize;
-    let mut l_line_matrix = 0;
-    let mut l_begin_ptr = p_result.len() - 1;
-    let mut l_generated_data = 0;
-    let mut l_current_permutation_ptr = 0;
-    l_intermediate_ptr = 0;
-    l_generated_data = nb_compo - 1;
-    i = 0;
-    while i < nb_compo {
-        sum = 0.0;
-        l_current_ptr = 0;
-        l_tmp_matrix = l_line_matrix;
-        j = 1;
-        while j <= i {
-            sum += p_matrix[l_tmp_matrix] * p_intermediate_data[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
-        }
-        p_intermediate_data[l_intermediate_ptr] =
-            p_vector[p_permutations[l_current_permutation_ptr] as usize] - sum;
-        l_line_matrix += nb_compo;
-        l_intermediate_ptr += 1;
-        l_current_permutation_ptr += 1;
-        i += 1;
-    }
-    l_line_matrix = p_matrix.len() - nb_compo - 1;
-    l_dest_ptr = nb_compo;
-    assert!(nb_compo != 0);
-    k = nb_compo as i32 - 1;
-    while k != -1 {
-        sum = 0.0;
-        l_tmp_matrix = l_line_matrix;
-        u = p_matrix[l_tmp_matrix];
-        l_line_matrix -= l_stride;
-        l_current_ptr = l_dest_ptr;
-        j = (k + 1) as usize;
-        while j < nb_compo {
-            sum += p_matrix[l_tmp_matrix] * p_result[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    for i in 0..nb_compo {
+        let mut sum = 0.0;
+        for j in 0..i {
+            sum += p_matrix[i * nb_compo + j] * p_result[j];
         }
-        p_result[l_begin_ptr] = (p_intermediate_data[l_generated_data] - sum) / u;
-        l_generated_data -= 1;
-        l_begin_ptr -= 1;
-        l_dest_ptr -= 1;
-        k -= 1;
+        p_result[i] = p_vector[p_permutations[i]] - sum;
     }
-}
-// *
-// LUP inversion (call with the result of lupDecompose)
-fn opj_lupInvert(
-    pSrcMatrix: &mut [f32],
-    pDestMatrix: &mut [f32],
-    nb_compo: usize,
-    pPermutations: &[u32],
-    p_src_temp: &mut [f32],
-    p_dest_temp: &mut [f32],
-    p_swap_area: &mut [f32],
-) {
-    let nb_compo_usize = nb_compo;
-    let mut lLineMatrix = pDestMatrix;
-    for j in 0..nb_compo {
-        let lCurrentPtr = &mut lLineMatrix[j + 1..];
-        p_src_temp.fill(0.0);
-        p_src_temp[j] = 1.0;
-        let p_src_temp_slice = &mut p_src_temp[..nb_compo_usize];
-        let p_dest_temp_slice = &mut p_dest_temp[..nb_compo_usize];
-        let pSrcMatrix_slice = &pSrcMatrix[..nb_compo_usize * nb_compo_usize];
-        let pPermutations_slice = &pPermutations[..nb_compo_usize];
-        let p_swap_area_slice = &mut p_swap_area[..nb_compo_usize];
-        opj_lupSolve(
-            p_dest_temp_slice,
-            pSrcMatrix_slice,
-            p_src_temp_slice,
-            pPermutations_slice,
-            nb_compo_usize,
-            p_swap_area_slice,
-        );
-        for i in 0..nb_compo_usize {
-            lCurrentPtr[i * nb_compo_usize] = p_dest_temp[i];
+    for i in (0..nb_compo).rev() {
+        let mut sum = 0.0;
+        for j in i + 1..nb_compo {
+            sum += p_matrix[i * nb_compo + j] * p_result[j];
         }
+        p_result[i] = (p_result[i] - sum) / p_matrix[i * nb_compo + i];
     }
 }
-- 
2.43.0


From 9a2e59ab7d44797a7214070e233ce158c6ca7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 77/83] fix: a custom component transform works on the real
 samples it is given

---
 openjp2-rs/src/mct.rs | 45 ++++++++++++-------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index ed38713..239eab5 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -5,15 +5,6 @@ extern "C" {
     fn sqrt(_: core::ffi::c_double) -> core::ffi::c_double;
 }
 
-#[inline]
-unsafe fn opj_int_fix_mul(mut a: OPJ_INT32, mut b: OPJ_INT32) -> OPJ_INT32 {
-    let mut temp = a as OPJ_INT64 * b as OPJ_INT64;
-    temp += 4096i64;
-
-    assert!(temp >> 13i32 <= 0x7FFFFFFF as OPJ_INT64);
-    assert!(temp >> 13i32 >= -(0x7FFFFFFF as OPJ_INT64) - 1 as OPJ_INT64);
-    (temp >> 13i32) as OPJ_INT32
-}
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
 // party and contributor rights, including patent rights, and no such rights
@@ -189,34 +180,22 @@ pub(crate) unsafe fn opj_mct_encode_custom(
     mut pNbComp: OPJ_UINT32,
     mut _isSigned: OPJ_UINT32,
 ) -> OPJ_BOOL {
-    let mut lMct = pCodingdata as *mut OPJ_FLOAT32;
+    // The samples are real: an array-based transform goes with the irreversible wavelet
+    let mut lMct = std::ptr::null_mut::<OPJ_FLOAT32>();
     let mut i: OPJ_SIZE_T = 0;
     let mut j: OPJ_UINT32 = 0;
     let mut k: OPJ_UINT32 = 0;
-    let mut lNbMatCoeff = pNbComp.wrapping_mul(pNbComp);
-    let mut lCurrentData = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lCurrentMatrix = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lData = pData as *mut *mut OPJ_INT32;
-    let mut lMultiplicator = ((1i32) << 13i32) as OPJ_UINT32;
-    let mut lMctPtr = std::ptr::null_mut::<OPJ_INT32>();
-    lCurrentData = opj_malloc(
-        (pNbComp.wrapping_add(lNbMatCoeff) as usize)
-            .wrapping_mul(core::mem::size_of::<OPJ_INT32>()),
-    ) as *mut OPJ_INT32;
+    let mut lCurrentData = std::ptr::null_mut::<OPJ_FLOAT32>();
+    let mut lData = pData as *mut *mut OPJ_FLOAT32;
+    lCurrentData =
+        opj_malloc((pNbComp as usize).wrapping_mul(core::mem::size_of::<OPJ_FLOAT32>()))
+            as *mut OPJ_FLOAT32;
     if lCurrentData.is_null() {
         return 0i32;
     }
-    lCurrentMatrix = lCurrentData.offset(pNbComp as isize);
-    i = 0 as OPJ_SIZE_T;
-    while i < lNbMatCoeff as usize {
-        let fresh0 = lMct;
-        lMct = lMct.offset(1);
-        *lCurrentMatrix.add(i) = (*fresh0 * lMultiplicator as OPJ_FLOAT32) as OPJ_INT32;
-        i += 1;
-    }
     i = 0 as OPJ_SIZE_T;
     while i < n {
-        lMctPtr = lCurrentMatrix;
+        lMct = pCodingdata as *mut OPJ_FLOAT32;
         j = 0 as OPJ_UINT32;
         while j < pNbComp {
             *lCurrentData.offset(j as isize) = **lData.offset(j as isize);
@@ -224,15 +203,15 @@ pub(crate) unsafe fn opj_mct_encode_custom(
         }
         j = 0 as OPJ_UINT32;
         while j < pNbComp {
-            **lData.offset(j as isize) = 0i32;
+            let mut sum = 0f32;
             k = 0 as OPJ_UINT32;
             while k < pNbComp {
-                let fresh1 = &mut (**lData.offset(j as isize));
-                *fresh1 += opj_int_fix_mul(*lMctPtr, *lCurrentData.offset(k as isize));
-                lMctPtr = lMctPtr.offset(1);
+                sum += *lMct * *lCurrentData.offset(k as isize);
+                lMct = lMct.offset(1);
                 k += 1;
             }
             let fresh2 = &mut (*lData.offset(j as isize));
+            **fresh2 = sum;
             *fresh2 = (*fresh2).offset(1);
             j += 1;
         }
-- 
2.43.0


From d5f114e251862f458aec5d6e85487eab7a9586aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 78/83] fix: a custom component transform is undone for any
 number of components

---
 openjp2-rs/src/tcd.rs | 48 ++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 1d961b2..a2fd511 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2266,6 +2266,14 @@ unsafe fn opj_tcd_mct_decode(
     if (*l_tcp).mct == 0u32 || !(*p_tcd).used_component.is_null() {
         return 1i32;
     }
+    // the components that are transformed together
+    let l_alike = if (*l_tcp).mct == 2u32 {
+        (*l_tile).numcomps
+    } else if (*l_tile).numcomps >= 3u32 {
+        3u32
+    } else {
+        0u32
+    };
     if (*p_tcd).whole_tile_decoding != 0 {
         let mut res_comp0 = (*(*l_tile).comps.offset(0))
             .resolutions
@@ -2276,25 +2284,19 @@ unsafe fn opj_tcd_mct_decode(
         // but we would need to take into account a stride then
         l_samples = (((*res_comp0).x1 - (*res_comp0).x0) as OPJ_SIZE_T)
             .wrapping_mul(((*res_comp0).y1 - (*res_comp0).y0) as OPJ_SIZE_T);
-        if (*l_tile).numcomps >= 3u32 {
+        i = 1 as OPJ_UINT32;
+        while i < l_alike {
             // The components may have different numbers of decomposition levels
-            let mut res_comp1 = (*(*l_tile).comps.offset(1))
+            let l_comp = (*l_tile).comps.offset(i as isize);
+            let mut res_comp1 = (*l_comp)
                 .resolutions
-                .offset((*(*l_tile).comps.offset(1)).minimum_num_resolutions as isize)
-                .offset(-1);
-            let mut res_comp2 = (*(*l_tile).comps.offset(2))
-                .resolutions
-                .offset((*(*l_tile).comps.offset(2)).minimum_num_resolutions as isize)
+                .offset((*l_comp).minimum_num_resolutions as isize)
                 .offset(-1);
             // testcase 1336.pdf.asan.47.376
-            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 1)
-                || opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 2)
+            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, i)
                 || (((*res_comp1).x1 - (*res_comp1).x0) as OPJ_SIZE_T)
                     .wrapping_mul(((*res_comp1).y1 - (*res_comp1).y0) as OPJ_SIZE_T)
                     != l_samples
-                || (((*res_comp2).x1 - (*res_comp2).x0) as OPJ_SIZE_T)
-                    .wrapping_mul(((*res_comp2).y1 - (*res_comp2).y0) as OPJ_SIZE_T)
-                    != l_samples
             {
                 event_msg!(
                     p_manager,
@@ -2303,6 +2305,7 @@ unsafe fn opj_tcd_mct_decode(
                 );
                 return 0i32;
             }
+            i += 1;
         }
     } else {
         let mut res_comp0_0 = (*(*l_tile).comps.offset(0))
@@ -2310,26 +2313,18 @@ unsafe fn opj_tcd_mct_decode(
             .offset((*(*(*p_tcd).image).comps.offset(0)).resno_decoded as isize);
         l_samples = ((*res_comp0_0).win_x1.wrapping_sub((*res_comp0_0).win_x0) as OPJ_SIZE_T)
             .wrapping_mul((*res_comp0_0).win_y1.wrapping_sub((*res_comp0_0).win_y0) as OPJ_SIZE_T);
-        if (*l_tile).numcomps >= 3u32 {
-            let mut res_comp1_0 = (*(*l_tile).comps.offset(1))
-                .resolutions
-                .offset((*(*(*p_tcd).image).comps.offset(1)).resno_decoded as isize);
-            let mut res_comp2_0 = (*(*l_tile).comps.offset(2))
+        i = 1 as OPJ_UINT32;
+        while i < l_alike {
+            let mut res_comp1_0 = (*(*l_tile).comps.offset(i as isize))
                 .resolutions
-                .offset((*(*(*p_tcd).image).comps.offset(2)).resno_decoded as isize);
+                .offset((*(*(*p_tcd).image).comps.offset(i as isize)).resno_decoded as isize);
             // testcase 1336.pdf.asan.47.376
-            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 1)
-                || opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, 2)
+            if opj_tcd_missing_resolutions(p_tcd, 0) != opj_tcd_missing_resolutions(p_tcd, i)
                 || ((*res_comp1_0).win_x1.wrapping_sub((*res_comp1_0).win_x0) as OPJ_SIZE_T)
                     .wrapping_mul(
                         (*res_comp1_0).win_y1.wrapping_sub((*res_comp1_0).win_y0) as OPJ_SIZE_T
                     )
                     != l_samples
-                || ((*res_comp2_0).win_x1.wrapping_sub((*res_comp2_0).win_x0) as OPJ_SIZE_T)
-                    .wrapping_mul(
-                        (*res_comp2_0).win_y1.wrapping_sub((*res_comp2_0).win_y0) as OPJ_SIZE_T
-                    )
-                    != l_samples
             {
                 event_msg!(
                     p_manager,
@@ -2338,9 +2333,10 @@ unsafe fn opj_tcd_mct_decode(
                 );
                 return 0i32;
             }
+            i += 1;
         }
     }
-    if (*l_tile).numcomps >= 3u32 {
+    if l_alike != 0 {
         if (*l_tcp).mct == 2u32 {
             let mut l_data = std::ptr::null_mut::<*mut OPJ_BYTE>();
             if (*l_tcp).m_mct_decoding_matrix.is_null() {
-- 
2.43.0


From 16d08641fcd1311819974a8d0119df7acf6fe49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 79/83] fix: a custom component transform of components of
 different sizes, or of more than 127, is refused

---
 openjp2-rs/src/j2k.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 3a395e7..9048738 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7620,6 +7620,30 @@ pub(crate) fn opj_j2k_setup_encoder(
             }
             if !parameters.mct_data.is_null() {
                 let numcomps = image.numcomps;
+                let l_comp0 = image.comps;
+                i = 1 as OPJ_UINT32;
+                while i < numcomps {
+                    let l_comp = image.comps.offset(i as isize);
+                    if (*l_comp).dx != (*l_comp0).dx || (*l_comp).dy != (*l_comp0).dy {
+                        event_msg!(
+                            p_manager,
+                            EVT_ERROR,
+                            "Cannot perform MCT on components with different sizes.\n",
+                        );
+                        return 0i32;
+                    }
+                    i += 1;
+                }
+                // 8 + 4 * numcomps * numcomps bytes in a MCT marker segment
+                if numcomps > 127 {
+                    event_msg!(
+                        p_manager,
+                        EVT_ERROR,
+                        "Too many components for a custom MCT: %d\n",
+                        numcomps,
+                    );
+                    return 0i32;
+                }
                 let mut lMctLen = numcomps * numcomps;
                 let mut lMctSize =
                     lMctLen.wrapping_mul(core::mem::size_of::<OPJ_FLOAT32>() as OPJ_UINT32);
-- 
2.43.0


From 0804ed9fc2c592e8dd7283a67edd98b184bd0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 80/83] fix: the collection a component transform names is
 looked for beyond the first

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 9048738..8246ae5 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6027,6 +6027,7 @@ fn opj_j2k_add_mct(
             if (*l_mcc_record).m_index == p_index {
                 break;
             }
+            l_mcc_record = l_mcc_record.offset(1);
             i += 1;
         }
         if i == (*p_tcp).m_nb_mcc_records {
-- 
2.43.0


From c4efed85a6984062fe33df2a6c9ce4259114102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 81/83] fix: a codestream with a custom component transform can
 be read

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8246ae5..96878d7 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1777,7 +1777,8 @@ fn opj_j2k_read_cod(
         } // SGcod (C)
         opj_read_bytes(p_header_data, &mut (*l_tcp).mct, 1 as OPJ_UINT32);
         p_header_data = p_header_data.offset(1);
-        if (*l_tcp).mct > 1u32 {
+        // 2 announces the array based transformation of 15444-2, which opj_set_MCT() asks for
+        if (*l_tcp).mct > 2u32 {
             event_msg!(p_manager, EVT_ERROR, "Invalid multiple component transformation\n",);
             return 0i32;
         }
-- 
2.43.0


From 77b5e24d5b0d2f24a98b25ecbbb87035f5bb89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 82/83] fix: the integers of a component transform are signed

---
 openjp2-rs/src/j2k.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 96878d7..61d02df 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -480,7 +480,7 @@ fn opj_j2k_read_int16_to_float(
             l_src_data = l_src_data.add(core::mem::size_of::<OPJ_INT16>());
             let fresh0 = l_dest_data;
             l_dest_data = l_dest_data.offset(1);
-            *fresh0 = l_temp as OPJ_FLOAT32;
+            *fresh0 = l_temp as OPJ_INT16 as OPJ_FLOAT32;
             i += 1;
         }
     }
@@ -502,7 +502,7 @@ fn opj_j2k_read_int32_to_float(
             l_src_data = l_src_data.add(core::mem::size_of::<OPJ_INT32>());
             let fresh1 = l_dest_data;
             l_dest_data = l_dest_data.offset(1);
-            *fresh1 = l_temp as OPJ_FLOAT32;
+            *fresh1 = l_temp as OPJ_INT32 as OPJ_FLOAT32;
             i += 1;
         }
     }
@@ -568,7 +568,7 @@ fn opj_j2k_read_int16_to_int32(
             l_src_data = l_src_data.add(core::mem::size_of::<OPJ_INT16>());
             let fresh4 = l_dest_data;
             l_dest_data = l_dest_data.offset(1);
-            *fresh4 = l_temp as OPJ_INT32;
+            *fresh4 = l_temp as OPJ_INT16 as OPJ_INT32;
             i += 1;
         }
     }
-- 
2.43.0


From 269ae182020a1ba66bf9efbb4c7d4b3a6175563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:41 +0000
Subject: [PATCH 83/83] fix: passes of a HT code-block may come with later
 packets

The cleanup pass of a HT code-block has a codeword segment of its own. When
the refinement passes came with a later layer, their bytes were taken for a
continuation of the cleanup segment, so the block was refused as malformed.
---
 openjp2-rs/src/t2.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 3831197..f7883c0 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1729,7 +1729,11 @@ unsafe fn opj_t2_init_seg(
     }
     seg = &mut *(*cblk).segs.offset(index as isize) as *mut opj_tcd_seg_t;
     opj_tcd_reinit_segment(seg);
-    if cblksty & 0x4u32 != 0 {
+    if cblksty & 0x40u32 != 0 && first != 0 {
+        // The cleanup pass of a HT code-block has a segment of its own, even if
+        // the passes that follow only come with a later packet
+        (*seg).maxpasses = 1 as OPJ_UINT32
+    } else if cblksty & 0x4u32 != 0 {
         (*seg).maxpasses = 1 as OPJ_UINT32
     } else if cblksty & 0x1u32 != 0 {
         if first != 0 {
-- 
2.43.0

