From 0d28c25779f3a3f3ed29db148eeeef971411930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 01/11] fix: reject packets whose attributes exceed 64 KiB
 instead of wrapping the length field

The total size was computed in u16, so attributes adding up to 65516 bytes or
more wrapped around (or panicked on overflow) and encode() returned an
oversized datagram with a wrong length field.
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From 6762ad0021600425a8faad8cd5ce28d23d874590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 02/11] fix: bound the tunnel-password plain text, not the
 authenticator, to 240 bytes

A longer plain text was accepted although the resulting attribute can neither
be encoded into a packet nor be decoded by encode_tunnel_password().
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..bf13da8 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From f2a0151a8da20b84007da982b467dabb0c231519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:02 +0000
Subject: [PATCH 03/11] fix: strip only the trailing zero padding from decoded
 passwords

A password with an embedded zero byte was cut at that byte, so b"a\0b" was
read back as b"a".
---
 radius/src/core/avp.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index bf13da8..a4894d6 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -745,8 +745,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok(dec[..=last].to_vec()),
             None => Ok(vec![]),
         }
     }
@@ -798,8 +798,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok(dec[..=last].to_vec()),
             None => Ok(vec![]),
         }
     }
@@ -872,8 +872,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok((dec[..=last].to_vec(), tag)),
             None => Ok((vec![], tag)),
         }
     }
@@ -931,8 +931,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok((dec[..=last].to_vec(), tag)),
             None => Ok((vec![], tag)),
         }
     }
-- 
2.43.0


From 20974a2027a21c5fa29d0bf35a2854aff4381ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 04/11] fix: write the IPv4 prefix length in bits

RFC 6572 defines Prefix-Length as the number of bits of the prefix (as
from_ipv6_prefix() writes it); a full 4 bytes prefix was announced as /4.
---
 radius/src/core/avp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index a4894d6..867a9bd 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,11 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [
+                vec![0x00, (prefix_len * 8) as u8 & 0b00111111],
+                prefix.to_vec(),
+            ]
+            .concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 2a5f6928992b86efe5eada0d236eccdc6964f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 05/11] fix: ignore the padding after the packet when
 validating its authenticity

RFC 2865 section 3: octets outside the range of the Length field must be
treated as padding and ignored on reception. Packet::decode() does that, but
is_authentic_request() and is_authentic_response() hashed the padding as well,
so genuine padded packets were reported as not authentic (and dropped by the
server).
---
 radius/src/core/packet.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index b3e4e7c..5785ec4 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -305,6 +305,16 @@ impl Packet {
         Ok(bs)
     }
 
+    // Octets outside the range of the length field must be treated as padding and ignored on reception.
+    // ref: https://tools.ietf.org/html/rfc2865#section-3
+    fn strip_padding(bs: &[u8]) -> &[u8] {
+        let len = u16::from_be_bytes([bs[2], bs[3]]) as usize;
+        match (RADIUS_PACKET_HEADER_LENGTH..=bs.len()).contains(&len) {
+            true => &bs[..len],
+            false => bs,
+        }
+    }
+
     #[cfg(feature = "md5")]
     /// Returns whether the Packet is authentic response or not.
     pub fn is_authentic_response(response: &[u8], request: &[u8], secret: &[u8]) -> bool {
@@ -314,6 +324,7 @@ impl Packet {
         {
             return false;
         }
+        let response = Self::strip_padding(response);
 
         compute(
             [
@@ -337,6 +348,7 @@ impl Packet {
         {
             return false;
         }
+        let response = Self::strip_padding(response);
 
         let hash_val = hash(
             MessageDigest::md5(),
@@ -359,6 +371,7 @@ impl Packet {
         if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
+        let request = Self::strip_padding(request);
 
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
@@ -386,6 +399,7 @@ impl Packet {
         if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
+        let request = Self::strip_padding(request);
 
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
-- 
2.43.0


From cdb932ee86c205bc2b3d524c1e518dee54026674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 06/11] fix: reject IPv6 prefix attributes longer than 18 bytes

RFC 3162 section 2.3: an IPv6 prefix attribute carries at most 16 octets of
prefix; longer values were returned as if they were a prefix, although
from_ipv6_prefix() refuses to build them.
---
 radius/src/core/avp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index 867a9bd..24232d1 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -698,10 +698,10 @@ impl AVP {
 
     /// (This method is for dictionary developers) encode an AVP into Ipv6-prefix value.
     pub fn encode_ipv6_prefix(&self) -> Result<Vec<u8>, AVPError> {
-        match self.value.len() >= 2 {
+        match (2..=18).contains(&self.value.len()) {
             true => Ok(self.value[2..].to_owned()),
             false => Err(AVPError::InvalidAttributeLengthError(
-                "2+ bytes".to_owned(),
+                "2 <= bytes && bytes <= 18".to_owned(),
                 self.value.len(),
             )),
         }
-- 
2.43.0


From e6fc01a5519c4a0ecb626a9673963958cb1efd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 07/11] fix: accept only an authentic response to the request
 in the client

Client::send_packet() returned whatever datagram could be decoded: neither the
identifier nor the response authenticator was checked against the request, so
anybody able to spoof a datagram could answer with an Access-Accept without
knowing the shared secret, and the caller had no way to notice.
---
 radius/src/client.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..1356549 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -121,12 +121,28 @@ impl Client {
             None => self.request(&conn, &request_data, remote_addr).await,
         }?;
 
-        match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
-            Ok(response_packet) => Ok(response_packet),
-            Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
-                "{e}"
-            ))),
+        let response_packet = match Packet::decode(&response, request_packet.get_secret()) {
+            Ok(response_packet) => response_packet,
+            Err(e) => {
+                return Err(ClientError::FailedDecodingRadiusResponseError(format!(
+                    "{e}"
+                )))
+            }
+        };
+
+        // ref: https://tools.ietf.org/html/rfc2865#section-3
+        if response_packet.get_identifier() != request_packet.get_identifier() {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "the identifier of the response doesn't match the request".to_owned(),
+            ));
+        }
+        if !Packet::is_authentic_response(&response, &request_data, request_packet.get_secret()) {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "the response authenticator is invalid".to_owned(),
+            ));
         }
+
+        Ok(response_packet)
     }
 
     async fn connect(&self, conn: &UdpSocket, remote_addr: &SocketAddr) -> Result<(), ClientError> {
-- 
2.43.0


From 12b34201f797dea6ff46100e869d5e949da27c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 08/11] fix: forget an undergoing request when its handler
 panics

The key of the request stayed in the set of undergoing requests forever, so
every later request with the same identifier from the same client was silently
dropped as a duplicate until the server was restarted.
---
 radius/src/server.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..c05fb33 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -211,6 +211,10 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             }
             undergoing_requests.insert(key);
         }
+        let _undergoing_request = UndergoingRequest {
+            undergoing_requests_lock,
+            key: key_for_remove,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +228,6 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
-
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
     }
 }
 
@@ -264,3 +265,18 @@ struct RequestKey {
     ip: String,
     identifier: u8,
 }
+
+/// This removes the key of an undergoing request when the handling of that request has finished,
+/// even if the request handler panicked.
+struct UndergoingRequest {
+    undergoing_requests_lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
+
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        if let Ok(mut undergoing_requests) = self.undergoing_requests_lock.write() {
+            undergoing_requests.remove(&self.key);
+        }
+    }
+}
-- 
2.43.0


From 04060134ef6806540cd6505aeba2d3e540a66b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:36 +0000
Subject: [PATCH 09/11] fix: generate add_vsa_attribute() for vsa attributes

rfc2865::add_vsa_attribute() exists only as a manual edit of the generated
module, so 'make gen' removed it from the public API.
---
 code-generator/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..b5cc5f3 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -182,6 +182,7 @@ use chrono::{{DateTime, Utc}};
 use crate::core::avp::{{AVP, AVPType, AVPError}};
 use crate::core::packet::Packet;
 use crate::core::tag::Tag;
+use crate::core::vsa::VSA;
 
 ",
         rfc_name = rfc_name,
@@ -371,7 +372,7 @@ fn generate_attribute_code(
             true => unimplemented!("tagged-short"),
             false => generate_short_attribute_code(w, &method_identifier, &type_identifier),
         },
-        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(),
+        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(w, &type_identifier),
     }
 }
 
@@ -901,8 +902,16 @@ pub fn lookup_all_{method_identifier}(packet: &Packet) -> Result<Vec<u16>, AVPEr
     w.write_all(code.as_bytes()).unwrap();
 }
 
-fn generate_vsa_attribute_code() {
-    // NOP
+fn generate_vsa_attribute_code(w: &mut BufWriter<File>, type_identifier: &str) {
+    let code = format!(
+        "
+/// Add `vsa_attribute` vsa value to a packet.
+pub fn add_vsa_attribute(packet: &mut Packet, value: &dyn VSA) {{
+    packet.add(AVP::from_bytes({type_identifier}, &value.message()));
+}}
+"
+    );
+    w.write_all(code.as_bytes()).unwrap();
 }
 
 type DictParsed = (Vec<RadiusAttribute>, BTreeMap<String, Vec<RadiusValue>>);
-- 
2.43.0


From f16325974442ade3383a03063c0cf0b0bd47fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:36 +0000
Subject: [PATCH 10/11] fix: accept dictionary values up to u32::MAX in the
 code generator

Values of integer attributes are u32 in the generated code, but the generator
panicked on every value above 65535.
---
 code-generator/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index b5cc5f3..06cf97a 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -38,7 +38,7 @@ struct RadiusAttribute {
 #[derive(Debug)]
 struct RadiusValue {
     name: String,
-    value: u16,
+    value: u32,
 }
 
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From 88e304745c1cb0528814d9c575abeac25c81c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 11/11] fix: refer to generated value types only for attributes
 that have values

The names of attributes without values were remembered for later dictionaries,
so that VALUEs of another dictionary for such an attribute generated a reference
to a type that does not exist.
---
 code-generator/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 06cf97a..16022e1 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -153,7 +153,10 @@ fn main() {
         );
 
         for attr in &radius_attributes {
-            attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
+            // only an attribute that has values in its own dictionary gets a type for them there
+            if value_defined_attributes_set.contains(&attr.name) {
+                attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
+            }
         }
         rfc_names.push(rfc_name.to_owned());
     }
-- 
2.43.0

