From d6ad25eef42360babdd4e1831183bdc0fc36fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:38 +0000
Subject: [PATCH 1/4] fix: return an error instead of panicking when text is
 left over after the definitions

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..98935c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,11 +82,11 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
-    Ok(parsed)
+    if remaining.is_empty() {
+        Ok(parsed)
+    } else {
+        Err(Err::Error((remaining, ErrorKind::Eof)))
+    }
 }
 
 pub trait Parse<'a>: Sized {
-- 
2.43.0


From d56418a06cee0596b1e1811e4d764443cb46c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:38 +0000
Subject: [PATCH 2/4] fix: a hexadecimal literal needs at least one digit after
 0x

---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0


From e4dc0543cec24b7aae604a8e336a037359bda552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:38 +0000
Subject: [PATCH 3/4] fix: a line comment may end at the end of the text

---
 src/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..6106394 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -5,7 +5,7 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
         input,
         many0!(alt!(
             // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From c0bc8065b4db84fa72c550e7621bc67c20e89532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 4/4] fix: accept a text that has only whitespace and comments

weedle::parse rejected a text without any definition unless it was empty:
definitions consume the trivia around them, but nothing did without one.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98935c2..aff6915 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // Definitions consume the trivia around them, but there may be none
+    let (remaining, _) = whitespace::sp(remaining)?;
     if remaining.is_empty() {
         Ok(parsed)
     } else {
-- 
2.43.0

