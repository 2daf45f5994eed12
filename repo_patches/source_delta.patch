From ed72fa389426eccf75bf2c7b89d4634a36810136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 01/37] fix: compare header names ignoring the case of ASCII
 letters only

Any two bytes 32 apart counted as equal, so distinct header names such
as "a-" and "a\r", or "0" and "P", were treated as the same header.
---
 src/helper.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..a9da123 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -442,16 +442,7 @@ impl Helper {
         if a.len() != b.len() {
             return false;
         }
-        for i in 0..a.len() {
-            if a[i] == b[i] {
-                continue;
-            }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
-                return false;
-            }
-        }
-        true
+        a.eq_ignore_ascii_case(b)
     }
     
     pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
-- 
2.43.0


From 5fc282a4b45556e5b925b89ad2bf0b463afdb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 02/37] fix: convert numeric header values exactly or fail

The last addition of a digit could overflow, "0-5" and "--5" were
numbers, a text without digits was 0, and isize::MIN did not convert.
---
 src/http/value.rs | 70 ++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..4a56e1e 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -108,24 +108,21 @@ impl TryInto<usize> for &HeaderValue {
     type Error = WebError;
 
     fn try_into(self) -> Result<usize, WebError> {
-        match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
-            HeaderValue::Value(v) => {
-                let mut result = 0usize;
-                for b in v {
-                    if !Helper::is_digit(*b) {
-                        return Err(WebError::IntoError);
-                    }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
-                }
-                Ok(result)
+        let v = self.as_bytes();
+        if v.is_empty() {
+            return Err(WebError::IntoError);
+        }
+        let mut result = 0usize;
+        for b in v {
+            if !Helper::is_digit(*b) {
+                return Err(WebError::IntoError);
             }
+            result = result
+                .checked_mul(10)
+                .and_then(|r| r.checked_add((b - Helper::DIGIT_0) as usize))
+                .ok_or(WebError::IntoError)?;
         }
+        Ok(result)
     }
 }
 
@@ -133,33 +130,24 @@ impl TryInto<isize> for &HeaderValue {
     type Error = WebError;
 
     fn try_into(self) -> Result<isize, WebError> {
-        match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
-            HeaderValue::Value(v) => {
-                let mut result = 0isize;
-                let mut is_neg = false;
-                for b in v {
-                    if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
-                            is_neg = true;
-                            continue;
-                        }
-                        return Err(WebError::IntoError);
-                    }
-                    match result.overflowing_mul(10) {
-                        (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
-                        }
-                        (_u, true) => return Err(WebError::IntoError),
-                    }
-                }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+        let v = self.as_bytes();
+        let is_neg = v.first() == Some(&b'-');
+        let digits = if is_neg { &v[1..] } else { v };
+        if digits.is_empty() {
+            return Err(WebError::IntoError);
+        }
+        let mut result = 0isize;
+        for b in digits {
+            if !Helper::is_digit(*b) {
+                return Err(WebError::IntoError);
             }
+            let digit = (b - Helper::DIGIT_0) as isize;
+            result = result
+                .checked_mul(10)
+                .and_then(|r| if is_neg { r.checked_sub(digit) } else { r.checked_add(digit) })
+                .ok_or(WebError::IntoError)?;
         }
+        Ok(result)
     }
 }
 
-- 
2.43.0


From e9d16536b416a036ece2b399afcf157a56819644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 03/37] fix: report a chunk size that does not fit instead of
 panicking

A hexadecimal chunk size above usize::MAX panicked in unwrap, one of the
two largest values overflowed when the line break was added.
---
 src/helper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index a9da123..7fc8229 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -393,9 +393,10 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(WebError::from)?;
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        let need = num.checked_add(2).ok_or(WebError::IntoError)?;
+        if need > val.remaining() {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From 6d6414b107bcd6688203460e5ea2c5af752fc617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 04/37] fix: accept only a line break where a line has to end

A space was accepted as a line break, and any other byte was reported as
incomplete input, so a caller would wait for more bytes forever.
---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7fc8229..419c38c 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -320,9 +320,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From d1025c6bca5879b3e353a20966d1ac2801726b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 05/37] fix: do not drop a byte after an empty header value

The byte that ended the empty value was consumed: with a bare line feed
the next header line was lost or the head rejected.
---
 src/helper.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 419c38c..8ecc0fe 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -258,7 +258,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
-- 
2.43.0


From 8ba8d747ffabaceca2007a566f858563593b0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 06/37] fix: end a header value at a bare line feed

Lines may end in a bare LF everywhere else in the head, but in a header
value the LF became part of the value together with the lines after it.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 8ecc0fe..d7cc037 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-- 
2.43.0


From f1e67e7669e3f7f813448fd875613bf56b059c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 07/37] fix: accept an empty reason phrase in a response

RFC 7230 allows the reason phrase to be empty, such a response was
rejected.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index d7cc037..3279fd3 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -287,7 +287,7 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
-- 
2.43.0


From 44682f241ce970bc2016cf2d031099e9661e96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 08/37] fix: accept every character RFC 7230 allows in a reason
 phrase

A tab or a byte above 0x7f in the reason phrase made the whole response
unparsable.
---
 src/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 3279fd3..3c4cbdb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -38,7 +38,7 @@ impl Helper {
 
     #[inline]
     pub fn is_status_token(b: u8) -> bool {
-        b > 0x1F && b < 0x7F
+        b == b'\t' || (b > 0x1F && b != 0x7F)
     }
     
     #[inline]
-- 
2.43.0


From 29476b6aaef3da649557fedaaa763d570b3ade0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 09/37] fix: take the host from :authority without its port

splitn(1) never splits, so the port stayed part of the host name.
---
 src/http/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..48fa524 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -185,7 +185,7 @@ impl HeaderMap {
             let value = TryInto::<String>::try_into(value).ok().unwrap();
             // host 信息只取前缀
             if value.contains(":") {
-                let v: Vec<&str> = value.splitn(1, ':').collect();
+                let v: Vec<&str> = value.splitn(2, ':').collect();
                 return Some(v[0].to_string());
             } else {
                 return Some(value);
-- 
2.43.0


From c1b0b53f52b27ad8734a477bf37257c4ee0893a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 10/37] fix: recognise every scheme in Scheme::from_str

The text was upper-cased before it was compared with lower-case names,
so "http" became an extension scheme.
---
 src/url/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..97e4e97 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(&*s.to_lowercase())
     }
 }
\ No newline at end of file
-- 
2.43.0


From de53905b0d7250b1fa37ffc1db3de50010c6664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 11/37] fix: report a truncated url as invalid, not as
 incomplete

A request with such a target was reported as incomplete although its
head was complete, so a caller would wait for more bytes forever.
---
 src/url/url.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..ae0abb3 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -103,6 +103,17 @@ impl Url {
     }
 
     pub fn parse(url: Vec<u8>) -> WebResult<Url> {
+        Self::parse_components(url).map_err(|e| {
+            // the text of a url is always complete, more bytes never follow
+            if e.is_partial() {
+                WebError::from(UrlError::UrlInvalid)
+            } else {
+                e
+            }
+        })
+    }
+
+    fn parse_components(url: Vec<u8>) -> WebResult<Url> {
         let mut buffer = Binary::from(url);
         let mut b = peek!(buffer)?;
         let mut scheme = Scheme::None;
-- 
2.43.0


From 364be989e12deb321ef43772743a77d2da39028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 12/37] fix: look for user information in the authority of a
 url only

An '@' in the path or query turned the host into the user name, and a
second '@' in the authority replaced the user information.
---
 src/url/url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index ae0abb3..7bc2df1 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -183,9 +183,9 @@ impl Url {
                 } else {
                     val.push(b);
                 }
-            } else if b == b'@' {
+            } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
-                if domain.is_none() {
+                if domain.is_none() || username.is_some() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
                 username = domain;
-- 
2.43.0


From c1a59abc439924b701b2cba187447bb43890b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 13/37] fix: end the authority of a url at '?'

The query of a url without a path was lost or became part of the port
or path.
---
 src/url/url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 7bc2df1..22f63a6 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -205,9 +205,14 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    // 域名后直接为参数, 路径为默认值
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    is_first_slash = true;
+                    path = Some(Binary::from(Self::DEFAULT_PATH.as_bytes().to_vec()));
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From e4c2cac0ab0881dc2d8f12503344cc6a63c1402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 14/37] fix: accept only digits as the port of a url

"+80" was read as port 80.
---
 src/url/url.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 22f63a6..76a20dc 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -241,8 +241,11 @@ impl Url {
         }
         if port.is_some() {
             let port = Self::parse_url_token(&mut port.unwrap(), true)?;
-            if port.is_some() {
-                url.port = match port.unwrap().parse::<u16>() {
+            if let Some(port) = port {
+                if !port.bytes().all(Helper::is_digit) {
+                    return Err(WebError::from(UrlError::UrlInvalid));
+                }
+                url.port = match port.parse::<u16>() {
                     Ok(v) => Some(v),
                     Err(_) => return Err(WebError::from(UrlError::UrlInvalid)),
                 }
-- 
2.43.0


From b827773c11b915e8a585ff65adae4c439b6e4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 15/37] fix: escape the delimiters of each component when a url
 is printed

A ':', '@', '/' or '?' in the user information or host, or a '?' in the
path, was printed as it is, so the printed url had other components.
---
 src/url/url.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 76a20dc..34e783d 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -290,6 +290,15 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// url编码, 并将该部分的分隔符一并转码
+    fn encode_component(val: &str, delims: &str) -> String {
+        let mut result = Self::url_encode(val);
+        for d in delims.bytes() {
+            result = result.replace(d as char, &format!("%{:02X}", d));
+        }
+        result
+    }
+
     pub fn url_decode(val: &str) -> WebResult<String> {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity(bytes.len() as usize);
@@ -365,12 +374,12 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::encode_component(self.username.as_deref().unwrap_or(""), ":@/?"),
+                Self::encode_component(self.password.as_deref().unwrap_or(""), ":@/?")
             ))?;
         }
-        if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+        if let Some(domain) = &self.domain {
+            f.write_str(&Self::encode_component(domain, ":@/?"))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -379,7 +388,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_str(&Self::encode_component(&self.path, "?"))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 443c221e0c53cab70da49433cb49b7ed45055ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 16/37] fix: write the whole request target, escaped, into the
 request line

The query was dropped, a CONNECT request was written with the path '/'
instead of its host and port, and the decoded path was written as it is,
so that a space, line break or '%' in it changed the request line.
---
 src/http/request.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..73114cb 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -641,7 +641,7 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += buffer.put_slice(self.parts.request_target().as_bytes());
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
@@ -689,6 +689,36 @@ impl Parts {
     pub fn get_connect_url(&self) -> Option<String> {
         self.url.get_connect_url()
     }
+
+    /// 请求行中的目标, 解析时已被转码, 需重新转码无法直接出现的字符
+    fn request_target(&self) -> String {
+        fn escape(target: &mut String, val: &str, delims: &[u8]) {
+            for b in val.bytes() {
+                if Helper::is_token(b) && !delims.contains(&b) {
+                    target.push(b as char);
+                } else {
+                    target.push_str(&format!("%{:02X}", b));
+                }
+            }
+        }
+
+        let mut target = String::new();
+        if self.method == Method::Connect {
+            if let Some(connect) = self.url.get_connect_url() {
+                escape(&mut target, &connect, b"");
+                return target;
+            }
+        }
+        escape(&mut target, &self.url.path, b"%?");
+        if target.is_empty() {
+            target.push('/');
+        }
+        if let Some(query) = &self.url.query {
+            target.push('?');
+            escape(&mut target, query, b"%");
+        }
+        target
+    }
 }
 
 impl Default for Request<()> {
@@ -708,7 +738,7 @@ where
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         self.parts.method.fmt(f)?;
         f.write_str(" ")?;
-        self.parts.url.path.fmt(f)?;
+        f.write_str(&self.parts.request_target())?;
         f.write_str(" ")?;
         self.parts.version.fmt(f)?;
         f.write_str("\r\n")?;
-- 
2.43.0


From 9e3e91277b7f358038bda327e5b74f61ab393621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 17/37] fix: refuse to serialise headers that would break the
 head

A line break in a header value, or a separator or line break in a name,
was written as it is and so could add headers or end the head.
---
 src/http/header.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 48fa524..ebc625d 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -10,7 +10,7 @@
 // -----
 // Created Date: 2023/08/14 05:20:35
 
-use crate::{HeaderName, HeaderValue, WebError, WebResult};
+use crate::{HeaderName, HeaderValue, Helper, HttpError, WebError, WebResult};
 use std::{
     borrow::Borrow,
     collections::HashMap,
@@ -287,6 +287,14 @@ impl HeaderMap {
     pub fn encode<B: Bt + BtMut>(&self, buffer: &mut B) -> WebResult<usize> {
         let mut size = 0;
         for value in self.iter() {
+            let (name, val) = (value.0.as_bytes(), value.1.as_bytes());
+            // 名字或者值中存在分隔符将会破坏整个头信息
+            if name.is_empty() || !name.iter().all(|b| Helper::is_header_name_token(*b)) {
+                return Err(WebError::from(HttpError::HeaderName));
+            }
+            if val.contains(&b'\r') || val.contains(&b'\n') {
+                return Err(WebError::from(HttpError::HeaderValue));
+            }
             size += value.0.encode(buffer)?;
             size += buffer.put_slice(": ".as_bytes());
             size += value.1.encode(buffer)?;
-- 
2.43.0


From 751771d21bd8ae0b19758eb345ad439d358e12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 18/37] fix: name entry 15 of the HPACK static table
 accept-charset

RFC 7541 Appendix A; the name was cut to "accept-".
---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From 55e295d695710f87b1947e5ba067b9bb1f80feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 19/37] fix: reject the end-of-string symbol in a Huffman
 string

RFC 7541 section 5.2 makes it an error, it was decoded as a zero byte.
---
 src/http/http2/hpack/huffman.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..27acf54 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -62,8 +62,11 @@ impl HuffmanDecoder {
 
             let key = (current, current_len);
             if HUFFMAN_CODE_MAP.contains_key(&key) {
-                let val = HUFFMAN_CODE_MAP.get(&key).unwrap();
-                result.push(*val);
+                let val = *HUFFMAN_CODE_MAP.get(&key).unwrap();
+                if val > u8::MAX as u16 {
+                    return Err(Http2Error::into(HuffmanDecoderError::EOSInString))
+                }
+                result.push(val as u8);
                 current = 0;
                 current_len = 0;
                 all_true = true;
@@ -477,10 +480,10 @@ static HUFFMAN_CODE_ARRAY: &'static [(u32, u8)] = &[
 ];
 
 lazy_static! {
-    static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u8> = {
-        let mut m = HashMap::<(u32, u8), u8>::new();
+    static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u16> = {
+        let mut m = HashMap::<(u32, u8), u16>::new();
         for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate() {
-            m.insert((code, code_len), symbol as u8);
+            m.insert((code, code_len), symbol as u16);
         }
         m
     };
-- 
2.43.0


From b12174f8975c6e73fa9594904447d032de3677ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 20/37] fix: decode indexed HPACK fields whose index takes
 several octets

Only the 7-bit prefix was read, so every field at index 127 or above was
taken for index 127 and the rest of the index for the next field. The
encoder does emit such indices.
---
 src/http/http2/hpack/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..c80689d 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,17 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
         let header = self.index.read().unwrap();
         let (name, value) = header
-            .get_from_index(index as usize)
+            .get_from_index(index)
             .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
         call(name, value);
-        Ok(1)
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From 23fa9facca1d59bea5058216a0362e2f86544b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 21/37] fix: apply HPACK dynamic table size updates

A size update consumed nothing, so any header block containing one made
the decoder loop forever.
---
 src/http/http2/hpack/decoder.rs      | 13 +++++++++++--
 src/http/http2/hpack/header_index.rs | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index c80689d..34f7aef 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -164,8 +164,7 @@ impl Decoder {
                 }
                 FieldRepresentation::SizeUpdate => {
                     // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    self.update_max_dynamic_size(buffer_leftover)?
                 }
             };
 
@@ -309,6 +308,16 @@ impl Decoder {
         Ok(consumed)
     }
 
+    /// Applies a dynamic table size update (6.3). The new size must not
+    /// exceed the limit set by the protocol using HPACK.
+    fn update_max_dynamic_size(&self, buf: &[u8]) -> WebResult<usize> {
+        let (new_size, consumed) = Self::decode_integer(buf, 5)?;
+        if !self.index.write().unwrap().update_table_size(new_size) {
+            return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+        }
+        Ok(consumed)
+    }
+
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..4b40093 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// The largest size a dynamic table size update may choose.
+    limit_size: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit_size: max_size,
         }
     }
 
@@ -111,10 +114,22 @@ impl HeaderIndex {
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
         self.max_size = new_max_size;
+        self.limit_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Resizes the table as a dynamic table size update asks for, returns
+    /// false if that exceeds the maximum size set by `set_max_table_size`.
+    pub(crate) fn update_table_size(&mut self, new_size: usize) -> bool {
+        if new_size > self.limit_size {
+            return false;
+        }
+        self.max_size = new_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From 3db425ad9ec5255bb55b7e4df2371d4a3e8d0dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 22/37] fix: refuse DATA on stream 0 instead of panicking

---
 src/http/http2/frame/frame.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..24d9aa5 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -160,7 +160,13 @@ impl<T: Bt> Frame<T> {
     ) -> WebResult<Frame<T>> {
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
-            Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
+            Kind::Data => {
+                // DATA帧必须关联一个流
+                if header.stream_id().is_zero() {
+                    return Err(Http2Error::InvalidStreamId.into());
+                }
+                Ok(Frame::Data(Data::new(header, buf)))
+            }
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
                 header.parse(buf, decoder, max_header_list_size)?;
-- 
2.43.0


From ba17ca86e258236fd3659bca330e214b99c67b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 23/37] fix: announce the payload length of an encoded PRIORITY
 frame

---
 src/http/http2/frame/priority.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..e7974de 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -70,7 +70,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
-- 
2.43.0


From 8d1cf696296982fd74e9e2b3a72c9a6a02fce7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 24/37] fix: keep the exclusive bit of an encoded PRIORITY
 frame

---
 src/http/http2/frame/priority.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index e7974de..e1d6821 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -116,7 +116,11 @@ impl StreamDependency {
     }
 
     fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+        let mut value = self.dependency_id.0;
+        if self.is_exclusive {
+            value |= !MASK_U31;
+        }
+        dst.put_u32(value);
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From e7187d1c6aec2c7baa37998865fb1a890fe0f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 25/37] fix: encode every pseudo-header first and keep header
 frames within the frame size limit

---
 src/http/http2/frame/headers.rs | 69 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..ac0317d 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -604,48 +604,51 @@ impl HeaderBlock {
         &mut self,
         encoder: &mut Encoder,
         dst: &mut B,
-        mut flags: Flag,
+        flags: Flag,
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
-        let mut result = vec![];
-        let mut binary = BinaryMut::new();
+        self.parts.encode_header(&mut self.fields);
 
-        for value in self.fields.iter() {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
+        // 伪头部必须出现在普通头部之前
+        let mut binary = BinaryMut::new();
+        for is_spec in [true, false] {
+            for value in self.fields.iter().filter(|v| v.0.is_spec() == is_spec) {
+                let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
             }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
         }
 
-        result.push(binary);
+        // 编码时不写入填充及优先级信息
+        Self::encode_frames(
+            FrameHeader::new(Kind::Headers, flags & Flag::END_STREAM, stream_id),
+            binary,
+            encoder.max_frame_size,
+            dst,
+        )
+    }
+
+    /// 将头块按最大帧长度拆成首帧及后续的CONTINUATION帧, 仅最后一帧带END_HEADERS
+    fn encode_frames<B: Bt + BtMut>(
+        mut head: FrameHeader,
+        mut block: BinaryMut,
+        max_frame_size: usize,
+        dst: &mut B,
+    ) -> WebResult<usize> {
         let mut size = 0;
-        if result.len() == 1 {
-            flags.set_end_headers();
-            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-        } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
-            head.length = result[0].remaining() as u32;
-            size += head.encode(dst).unwrap();
-            size += result[0].serialize(dst).unwrap();
-
-            for idx in 1..result.len() {
-                let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
-                if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
-                }
-                head.length = result[idx].remaining() as u32;
-                size += head.encode(dst).unwrap();
-                size += result[idx].serialize(dst).unwrap();
+        loop {
+            let len = std::cmp::min(block.remaining(), std::cmp::max(max_frame_size, 1));
+            let is_last = len == block.remaining();
+            if is_last {
+                head.flag.set_end_headers();
             }
+            head.length = len as u32;
+            size += head.encode(dst)?;
+            size += dst.put_slice(&block.chunk()[..len]);
+            block.advance(len);
+            if is_last {
+                return Ok(size);
+            }
+            head = FrameHeader::new(Kind::Continuation, Flag::zero(), head.id);
         }
-        Ok(size)
     }
 }
 
-- 
2.43.0


From 02a172133a0b55a104e6929a01d31755cbddaa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 26/37] fix: keep PUSH_PROMISE frames within the frame size
 limit

---
 src/http/http2/frame/headers.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index ac0317d..5c2aa10 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -460,6 +460,7 @@ impl PushPromise {
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
         let mut binary = BinaryMut::new();
+        self.promised_id.encode(&mut binary)?;
         self.header_block
             .parts
             .encode_header(&mut self.header_block.fields);
@@ -481,14 +482,12 @@ impl PushPromise {
                 encoder.encode_header_into((&HeaderName::from_static(":path"), &v), &mut binary);
         }
 
-        let mut size = 0;
-        let mut head = FrameHeader::new(Kind::PushPromise, self.flags.into(), self.stream_id);
-        head.flag.set_end_headers();
-        head.length = binary.remaining() as u32 + 4;
-        size += head.encode(dst).unwrap();
-        size += self.promised_id.encode(dst).unwrap();
-        size += binary.serialize(dst).unwrap();
-
+        let mut size = HeaderBlock::encode_frames(
+            FrameHeader::new(Kind::PushPromise, Flag::zero(), self.stream_id),
+            binary,
+            encoder.max_frame_size,
+            dst,
+        )?;
         size += self
             .header_block
             .encode(encoder, dst, self.flags, self.promised_id)?;
-- 
2.43.0


From c769a7ca87dfcea12b55edf995bc378c2d75f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:42 +0000
Subject: [PATCH 27/37] fix: decode the header block of a PUSH_PROMISE frame

---
 src/http/http2/frame/headers.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 5c2aa10..7627775 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -444,13 +444,17 @@ impl PushPromise {
     pub fn parse<B: Bt>(
         head: FrameHeader,
         mut src: B,
-        _decoder: &mut Decoder,
-        _max_header_list_size: usize,
+        decoder: &mut Decoder,
+        max_header_list_size: usize,
     ) -> WebResult<Self> {
+        if src.remaining() < 4 {
+            return Err(Http2Error::PayloadLengthTooShort.into());
+        }
         let promised_id = StreamIdentifier::parse(&mut src);
-        let push = PushPromise::new(head, promised_id, HeaderMap::new());
-        // push.header_block
-        //     .parse(&mut src, max_header_list_size, decoder)?;
+        let mut push = PushPromise::new(head, promised_id, HeaderMap::new());
+        let mut headers = Headers::empty();
+        headers.parse(src, decoder, max_header_list_size)?;
+        push.header_block = headers.header_block;
         Ok(push)
     }
 
-- 
2.43.0


From c9dbfab9d1bebb27e025c8b5527158443a9018c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 28/37] fix: validate frame padding and keep it out of header
 blocks

---
 src/http/http2/frame/frame.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 24d9aa5..8ea40a8 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -47,18 +47,21 @@ pub enum Frame<T = Binary> {
 }
 
 impl Frame<Binary> {
+    /// 去掉填充长度字节, 返回负载末尾填充的长度, 仅DATA/HEADERS/PUSH_PROMISE可带填充
     #[inline]
-    pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
-        if header.flag.is_padded() && buf.has_remaining() {
-            let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
-                return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
-            } else {
-                buf.advance(1);
-                // buf.mark_len(header.length as usize - pad_length as usize - 1);
-            }
+    pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<usize> {
+        match header.kind() {
+            Kind::Data | Kind::Headers | Kind::PushPromise if header.flag.is_padded() => {}
+            _ => return Ok(0),
+        }
+        if !buf.has_remaining() {
+            return Err(Http2Error::into(Http2Error::PayloadLengthTooShort));
+        }
+        let pad_length = buf.get_u8();
+        if pad_length as usize > buf.remaining() {
+            return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
         }
-        Ok(())
+        Ok(pad_length as usize)
     }
 
     pub fn display_name(&self) -> String {
@@ -158,7 +161,8 @@ impl<T: Bt> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
-        Frame::trim_padding(&header, &mut buf)?;
+        let pad_length = Frame::trim_padding(&header, &mut buf)?;
+        let len = buf.remaining() - pad_length;
         match header.kind() {
             Kind::Data => {
                 // DATA帧必须关联一个流
@@ -169,7 +173,7 @@ impl<T: Bt> Frame<T> {
             }
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-                header.parse(buf, decoder, max_header_list_size)?;
+                header.parse(&buf.chunk()[..len], decoder, max_header_list_size)?;
                 Ok(Frame::Headers(header))
             }
             Kind::Priority => Ok(Frame::Priority(Priority::parse(header, &mut buf)?)),
@@ -177,7 +181,7 @@ impl<T: Bt> Frame<T> {
             Kind::Settings => Ok(Frame::Settings(Settings::parse(header, &mut buf)?)),
             Kind::PushPromise => Ok(Frame::PushPromise(PushPromise::parse(
                 header,
-                buf,
+                &buf.chunk()[..len],
                 decoder,
                 max_header_list_size,
             )?)),
-- 
2.43.0


From f11ec8f1d080dac0453781fc8908a26cfcc7768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 29/37] fix: do not flag encoded DATA frames as padded

---
 src/http/http2/frame/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..ba34681 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -95,7 +95,7 @@ impl Data<Binary> {
         let mut size = 0;
         loop {
             let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
-            let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
+            let mut head = FrameHeader::new(Kind::Data, self.flags & Flag::END_STREAM, self.stream_id);
             head.length = now_len as u32;
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
-- 
2.43.0


From 9676e482db6f68bb5c4fef62d14cb5d23792358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 30/37] fix: return the size of a written WebSocket frame

---
 src/ws/dataframe.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ws/dataframe.rs b/src/ws/dataframe.rs
index 9e92d5b..b5484d1 100644
--- a/src/ws/dataframe.rs
+++ b/src/ws/dataframe.rs
@@ -185,8 +185,7 @@ pub trait DataFrameable {
             }
             None => self.write_payload(&mut data)?,
         };
-        writer.put_slice(data.as_slice());
-        Ok(0)
+        Ok(writer.put_slice(data.as_slice()))
     }
 }
 
-- 
2.43.0


From b750f31549178985fa862e53c87bd7c792709ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 31/37] fix: refuse an HTTP/2 path or authority that would run
 into the other

---
 src/http/http2/frame/headers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 7627775..97bad8c 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -591,6 +591,12 @@ impl Parts {
         if self.authority.is_none() {
             return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
         }
+        // 域名和路径不得互相混淆, 如路径".b.com/"会改变域名"a"
+        let is_mixed = self.authority.iter().any(|a| a.contains(&['/', '?'][..]))
+            || self.path.iter().any(|p| !p.is_empty() && !p.starts_with('/'));
+        if is_mixed {
+            return Err(crate::WebError::Http2(Http2Error::InvalidRequesetUrl));
+        }
         let url = format!(
             "{}://{}{}",
             self.scheme.as_ref().unwrap_or(&Scheme::Http),
-- 
2.43.0


From 2cec5108e996dfa82c3d8a9dafe72ea659768f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 32/37] fix: ignore only ASCII case when parsing a method

---
 src/http/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index 3cb89c0..422a242 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -141,6 +141,6 @@ impl TryFrom<&str> for Method {
 impl FromStr for Method {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Method::try_from(&*s.to_uppercase())
+        Method::try_from(&*s.to_ascii_uppercase())
     }
 }
-- 
2.43.0


From 73f7ca85a59264a5d3d9aebabdd7938d3df4106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 33/37] fix: read the value of an HTTP/2 error code

---
 src/http/http2/frame/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/http/http2/frame/mod.rs b/src/http/http2/frame/mod.rs
index d439911..589e3bd 100644
--- a/src/http/http2/frame/mod.rs
+++ b/src/http/http2/frame/mod.rs
@@ -173,8 +173,7 @@ pub struct ErrorCode(pub u32);
 
 impl ErrorCode {
     pub fn parse<T: Bt>(buf: &mut T) -> ErrorCode {
-        buf.advance(4);
-        ErrorCode(0)
+        ErrorCode(buf.get_u32())
     }
 }
 
-- 
2.43.0


From a0b1b76f8a3c6e1ba4f75e89a972fbc7a739377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 34/37] fix: promised requests must have no body,
 validate_request demanded one

---
 src/http/http2/frame/headers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 97bad8c..5ba5f2f 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -414,7 +414,8 @@ impl PushPromise {
         // The spec has some requirements for promised request headers
         // [https://httpwg.org/specs/rfc7540.html#PushRequests]
 
-        if req.get_body_len() == 0 {
+        // 推送的请求不得包含消息体
+        if req.get_body_len() != 0 {
             return Err(Http2Error::PayloadLengthTooShort.into());
         }
         // "The server MUST include a method in the :method parts-header field
-- 
2.43.0


From a1f8a9a0753d23dcc8d38dc64968eb3796398862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 35/37] fix: a method holding separators could inject lines
 into the head

---
 src/http/method.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http/method.rs b/src/http/method.rs
index 422a242..4ef6542 100644
--- a/src/http/method.rs
+++ b/src/http/method.rs
@@ -12,7 +12,7 @@
 
 use std::{fmt::Display, str::FromStr};
 
-use crate::{WebError, WebResult};
+use crate::{Helper, WebError, WebResult};
 use algorithm::buf::{Bt, BtMut};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -108,6 +108,10 @@ impl Method {
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         match self {
             Method::None => Err(WebError::Serialize("method")),
+            // 扩展的方法必须为token, 否则空格或者换行将会破坏整个请求行
+            Method::Extension(s) if s.is_empty() || !s.bytes().all(Helper::is_header_name_token) => {
+                Err(WebError::Serialize("method"))
+            }
             _ => Ok(buffer.put_slice(self.as_str().as_bytes())),
         }
     }
-- 
2.43.0


From 8f64fc0c716a3b2dce30133af6b12c4c39fce8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 36/37] fix: OPTIONS * was refused, it asks about the server as
 a whole

---
 src/http/request.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 73114cb..c141538 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -569,7 +569,13 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                // OPTIONS的"*"表示整个服务器, 并非路径
+                let is_asterisk = self.parts.method == Method::Options && path == "*";
+                let target = if is_asterisk { Url::DEFAULT_PATH.to_string() } else { path };
+                let mut url = Url::try_from(target)?;
+                if is_asterisk {
+                    url.path = "*".to_string();
+                }
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
-- 
2.43.0


From 2131c161360e249f1d6ea4925cf8eb7322e39b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 37/37] fix: spaces and tabs around a header value were kept,
 'Content-Length: 5 ' announced no body

---
 src/helper.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helper.rs b/src/helper.rs
index 3c4cbdb..2c24bbb 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -302,7 +302,12 @@ impl Helper {
     #[inline]
     pub(crate) fn parse_header_value<'a, B:Bt>(buffer: &'a mut B) -> WebResult<HeaderValue> {
         let token = Self::parse_token_by_func_empty(buffer, Self::is_header_value_token, WebError::from(HttpError::HeaderValue), true)?;
-        Ok(HeaderValue::Value(token.as_bytes().to_vec()))
+        // 值前后的空格及制表符不属于值的一部分
+        let is_ows = |b: &u8| *b == b' ' || *b == b'\t';
+        let value = token.as_bytes();
+        let start = value.iter().position(|b| !is_ows(b)).unwrap_or(value.len());
+        let end = value.iter().rposition(|b| !is_ows(b)).map_or(start, |i| i + 1);
+        Ok(HeaderValue::Value(value[start..end].to_vec()))
     }
 
     #[inline]
-- 
2.43.0

