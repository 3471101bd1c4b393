From 5a1a16b60082fece35b9ddc2d887477c37fce8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 1/7] fix: try_to_yamd rejects an End that does not match the
 frame it closes

---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..aec60a3 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // an End that does not match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 09f037077f67d443ebb0b98d5a94226f65ec264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 2/7] fix: printing three line feeds in inline text leaves no
 Terminator behind

A run of an odd number of line feeds was escaped pairwise, so the last escape
was followed by two bare line feeds, which end the construct when parsed back.
---
 src/nodes/anchor.rs        | 4 +++-
 src/nodes/bold.rs          | 1 +
 src/nodes/code_span.rs     | 1 +
 src/nodes/emphasis.rs      | 1 +
 src/nodes/heading.rs       | 1 +
 src/nodes/image.rs         | 4 +++-
 src/nodes/italic.rs        | 1 +
 src/nodes/strikethrough.rs | 1 +
 8 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..f3d63c6 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -57,12 +57,14 @@ impl Display for Anchor {
                 .replace("\\", "\\\\")
                 .replace("[", "\\[")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n"),
             self.url
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..b872952 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -46,6 +46,7 @@ impl Display for BoldNodes {
                         .replace("_", "\\_")
                         .replace("~", "\\~")
                         .replace("\n\n", "\\\n\n")
+                        .replace("\n\n\n", "\n\n\\\n")
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..e429e63 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -51,6 +51,7 @@ impl Display for CodeSpan {
                 .replace("\\", "\\\\")
                 .replace("`", "\\`")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..25379ea 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -48,6 +48,7 @@ impl Display for Emphasis {
                 .replace("\\", "\\\\")
                 .replace("*", "\\*")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..3c41aaa 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -34,6 +34,7 @@ impl Display for HeadingNodes {
                     "{}",
                     text.replace("\\", "\\\\")
                         .replace("\n\n", "\\\n\n")
+                        .replace("\n\n\n", "\n\n\\\n")
                         .replace("#", "\\#")
                 )
             }
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..3696d98 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -57,12 +57,14 @@ impl Display for Image {
             self.alt
                 .replace("\\", "\\\\")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n"),
             self.src
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..34a7b2e 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -47,6 +47,7 @@ impl Display for Italic {
                 .replace("\\", "\\\\")
                 .replace("_", "\\_")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..92b404c 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -48,6 +48,7 @@ impl Display for Strikethrough {
                 .replace("\\", "\\\\")
                 .replace("~", "\\~")
                 .replace("\n\n", "\\\n\n")
+                .replace("\n\n\n", "\n\n\\\n")
         )
     }
 }
-- 
2.43.0


From 6ba0ba81b56a375925b4c65650f1745a55b509b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 3/7] fix: line feeds in the titles of collapsibles and
 highlights, and in icons, are escaped when printed

---
 src/nodes/collapsible.rs | 5 ++++-
 src/nodes/highlight.rs   | 9 ++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..103faf1 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -56,7 +56,10 @@ impl Display for Collapsible {
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
+            self.title
+                .replace("\\", "\\\\")
+                .replace("%}", "\\%}")
+                .replace("\n", "\\\n"),
             self.body
                 .iter()
                 .map(|node| match node {
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..421102a 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -74,12 +74,11 @@ impl Highlight {
 
 impl Display for Highlight {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let title = self
-            .title
-            .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
+        let title = self.title.as_ref().map_or("".to_string(), |t| {
+            format!(" {}", t.replace("\\", "\\\\").replace("\n", "\\\n"))
+        });
         let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
+            format!("! {}\n", i.replace("\\", "\\\\").replace("\n", "\\\n"))
         });
         write!(
             f,
-- 
2.43.0


From 851d6dd58cb3b74b0f92b02a44ba826607483d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 4/7] fix: a square bracket in heading text is escaped when
 printed

Unescaped, the text could be parsed back as an anchor.
---
 src/nodes/heading.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 3c41aaa..11a906c 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -36,6 +36,7 @@ impl Display for HeadingNodes {
                         .replace("\n\n", "\\\n\n")
                         .replace("\n\n\n", "\n\n\\\n")
                         .replace("#", "\\#")
+                        .replace("[", "\\[")
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
-- 
2.43.0


From 73776d5546a0cd78128781890c7106839badcd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 5/7] fix: backslashes and closing markers in metadata are
 escaped when printed

The lexer un-escapes metadata like any other text, so a backslash in it was
lost on the way back, and a line starting with --- closed the block early.
---
 src/nodes/yamd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..6a5f95f 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -276,6 +276,12 @@ impl Display for Yamd {
             .join("\n\n");
         match &self.metadata {
             Some(metadata) => {
+                let metadata = metadata.replace("\\", "\\\\").replace("\n---", "\n\\---");
+                let metadata = if metadata.starts_with("---") {
+                    format!("\\{metadata}")
+                } else {
+                    metadata
+                };
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
                 write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
             }
-- 
2.43.0


From 617782033f7c2a1b1a3927cb1c16429b42913819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 6/7] fix: a paragraph that would print as a deeper heading or
 an image is escaped

---
 src/nodes/paragraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..0b55c90 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -171,8 +171,9 @@ impl Display for Paragraph {
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
     if s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
+        || (s.starts_with('#') && s.trim_start_matches('#').starts_with(' '))
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
     {
         format!("\\{}", s)
-- 
2.43.0


From 8220e56c7802e183974f6c77813b20251d03a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 7/7] fix: a highlight paragraph that starts like an icon is
 escaped when printed

---
 src/nodes/highlight.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 421102a..83c88a9 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -88,6 +88,11 @@ impl Display for Highlight {
             self.body
                 .iter()
                 .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
+                .map(|p| if p.starts_with("! ") {
+                    format!("\\{p}")
+                } else {
+                    p
+                })
                 .collect::<Vec<_>>()
                 .join("\n\n")
         )
-- 
2.43.0

