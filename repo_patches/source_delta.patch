From d352ad88d60b45cc95f8ef04d8e49a0baba204f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 01/52] verification hook: guarded external test driver (cfg
 posy_verif)

---
 src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..859d580 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,12 @@ mod seek_slice;
 mod test_util;
 mod trampolines;
 mod tree;
+// Verification hook: compiles a test driver, which lives outside this repository, into
+// the binary. Only active with RUSTFLAGS/rustc args "--cfg posy_verif".
+#[cfg(posy_verif)]
+mod verif_driver {
+    include!(env!("POSY_VERIF_DRIVER"));
+}
 
 use std::path::Path;
 
@@ -32,6 +38,11 @@ struct Cli {
 }
 
 fn main() -> Result<()> {
+    #[cfg(posy_verif)]
+    if let Some(result) = verif_driver::main() {
+        return result;
+    }
+
     let cli = Cli::parse();
     output::init(&cli.output_args);
 
-- 
2.43.0


From aab381dfa3a44b1cce62ee5441144a3cfa583b20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 02/52] verification hook: expose http and index layers to the
 driver (cfg posy_verif)

---
 src/package_db/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/package_db/mod.rs b/src/package_db/mod.rs
index 462e3ee..08e2ea5 100644
--- a/src/package_db/mod.rs
+++ b/src/package_db/mod.rs
@@ -6,3 +6,11 @@ mod simple_api;
 pub use build_wheel::WheelBuilder;
 pub use package_db::PackageDB;
 pub use simple_api::ArtifactInfo;
+
+// Verification hook (see main.rs): gives the external test driver access to the HTTP and
+// index layers.
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::http::{CacheMode, Http, NotCached};
+    pub use super::simple_api::{fetch_simple_api, ProjectInfo};
+}
-- 
2.43.0


From 76b27d9c277d0d1a39d664714861234262e99df0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 03/52] fix: the smallest version is 0.dev0, not 0a0.dev0

Anything expressed as a range starting at VERSION_ZERO (<, <=, !=) or as
'any version' left out 0.devN.
---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..d6dccf9 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From f0eabc7641a44314eddadc72da492c21509f813f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 04/52] fix: don't confuse a version with its +local variants
 and next post release

- '== V+local' and '!= V+local' covered longer local suffixes, later local
  suffixes, and plain later versions up to V.post0.dev0.
- '== V.postN', '<= V.postN' and the like included V.post(N+1).devM, and
  '> V.postN' left it out.
- pubgrub's notion of a single version included its +local variants.
---
 src/vocab/specifier.rs | 20 ++++++++++++--------
 src/vocab/version.rs   | 21 ++++++++++++++++++---
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..c9a2127 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -172,25 +172,29 @@ impl CompareOp {
             if self != &Equal && self != &NotEqual && !version.0.local.is_empty() {
                 bail!("Operator {:?} cannot be used on a version with a +local suffix", self);
             }
+            // "== V" also covers V's +local variants, but "== V+local" is just that
+            let just_after = if version.0.local.is_empty() {
+                version.next()
+            } else {
+                version.successor()
+            };
             match self {
                 // These two are simple
-                LessThanEqual => vec![VERSION_ZERO.clone()..version.next()],
+                LessThanEqual => vec![VERSION_ZERO.clone()..just_after],
                 GreaterThanEqual => vec![version..VERSION_INFINITY.clone()],
                 // These are also pretty simple, because we took care of the wildcard
                 // cases up above.
-                Equal => vec![version.clone()..version.next()],
+                Equal => vec![version..just_after],
                 NotEqual => vec![
-                    VERSION_ZERO.clone()..version.clone(),
-                    version.next()..VERSION_INFINITY.clone(),
+                    VERSION_ZERO.clone()..version,
+                    just_after..VERSION_INFINITY.clone(),
                 ],
                 // "The exclusive ordered comparison >V MUST NOT allow a post-release of
                 // the given version unless V itself is a post release."
                 StrictlyGreaterThan => {
                     let mut low = version.clone();
-                    if let Some(dev) = &version.0.dev {
-                        low.0.dev = Some(dev + 1);
-                    } else if let Some(post) = &version.0.post {
-                        low.0.post = Some(post + 1);
+                    if version.0.dev.is_some() || version.0.post.is_some() {
+                        low = version.next();
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index d6dccf9..c59b3be 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -36,9 +36,11 @@ impl Version {
         self.0.pre.is_some() || self.0.dev.is_some()
     }
 
-    /// Returns the smallest PEP 440 version that is larger than self.
+    /// Returns the smallest PEP 440 version that is larger than self and all of self's
+    /// +local variants.
     pub fn next(&self) -> Version {
         let mut new = self.clone();
+        new.0.local = vec![];
         // The rules are here:
         //
         //   https://www.python.org/dev/peps/pep-0440/#summary-of-permitted-suffixes-and-relative-ordering
@@ -49,7 +51,7 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
@@ -57,12 +59,25 @@ impl Version {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
+            new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
         }
         new
     }
+
+    /// Returns the smallest thing that sorts after self. There's no valid version in
+    /// between, not even one with a +local suffix, so [v, v.successor()) contains only v.
+    pub fn successor(&self) -> Version {
+        let mut new = self.clone();
+        // Components of a local suffix are never empty, and strings sort first, so this
+        // isn't a valid version, but sorts before every longer local suffix.
+        new.0
+            .local
+            .push(pep440::LocalVersion::StringComponent("".into()));
+        new
+    }
 }
 
 impl TryFrom<&str> for Version {
@@ -89,6 +104,6 @@ impl pubgrub::version::Version for Version {
     }
 
     fn bump(&self) -> Self {
-        self.next()
+        self.successor()
     }
 }
-- 
2.43.0


From c23af693985c48dc6062d6767d65f828a9405a50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 05/52] fix: '< V.postN' accepts V and its earlier post
 releases

---
 src/vocab/specifier.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index c9a2127..b5f57e0 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -213,8 +213,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
-                        new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
                         // Otherwise, some kind of pre-release
-- 
2.43.0


From 487172f975679649d59aa01103600932c11e334f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 06/52] fix: refuse version numbers that are too large

The parser silently dropped pre/post/dev numbers that don't fit in 32 bits, so
that e.g. 1.0.dev20230101120000 was read as the final release 1.0, and working
with the largest number overflowed.
---
 src/vocab/version.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index c59b3be..fee0d29 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -84,6 +84,15 @@ impl TryFrom<&str> for Version {
     type Error = eyre::Report;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
+        // pep440::Version::parse ignores pre/post/dev numbers that don't fit into a u32,
+        // and treats e.g. 1.0.dev20230101120000 as 1.0. And we need room to add 1.
+        let public = value.split('+').next().unwrap_or(value);
+        for number in public.split(|c: char| !c.is_ascii_digit()) {
+            if !number.is_empty() && !matches!(number.parse::<u32>(), Ok(n) if n < u32::MAX)
+            {
+                bail!("Number too large in PEP 440 version {}", value);
+            }
+        }
         pep440::Version::parse(value)
             .map(Version)
             .ok_or_else(|| eyre!("Failed to parse PEP 440 version {}", value))
-- 
2.43.0


From ea0d6608b194481a144c92fab20761e70b29e99f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 07/52] fix: a brief without allow_pre can be read back

It's left out when writing, but was required when reading.
---
 src/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..bbef0c5 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From 6aff71f6bc9cfaf1c79147ee4d7b4efa7fd945a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 08/52] fix: package names that differ in runs of separators
 are the same (PEP 503)

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 0cdd7f9aca4f20fa22c83ec3fac606dadf11ecd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 09/52] fix: honour all requirements on the same package

A later requirement on a package overwrote an earlier one.
---
 src/resolve.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index bbef0c5..9ffe729 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -741,6 +741,12 @@ impl<'a> PubgrubState<'a> {
             for maybe_extra in maybe_extras {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
+                // There might be several requirements on the same package, and all of
+                // them count
+                let range = match dc.get(&pkg) {
+                    Some(other) => other.intersection(&range),
+                    None => range,
+                };
                 trace!("adding dependency: {} {}", pkg, range);
                 dc.insert(pkg, range);
             }
@@ -863,10 +869,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
-                        ResPkg::Package(name.clone(), None),
-                        Range::exact(version.clone()),
-                    );
+                    let base = ResPkg::Package(name.clone(), None);
+                    let exact = Range::exact(version.clone());
+                    let range = match dc.get(&base) {
+                        Some(other) => other.intersection(&exact),
+                        None => exact,
+                    };
+                    dc.insert(base, range);
                 }
 
                 trace!("<---- dependencies complete");
-- 
2.43.0


From 4e7a26b18f1066509eddb7419d2f23a30c23f904 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 10/52] fix: a release with a self-dependency or contradictory
 requirements isn't fatal

Resolution stopped with an error, even if the self-dependency was satisfied or
another release could have been used.
---
 src/resolve.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 9ffe729..9a1619f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -878,6 +878,16 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     dc.insert(base, range);
                 }
 
+                // pubgrub gives up if a release depends on itself or has contradictory
+                // requirements. But a release that's happy with itself is fine, and if
+                // some release can't be satisfied, then another one might.
+                let happy_with_itself =
+                    dc.remove(pkg).map_or(true, |range| range.contains(version));
+                if !happy_with_itself || dc.values().any(|r| r == &Range::none()) {
+                    trace!("<---- dependencies can't be satisfied");
+                    return Ok(Dependencies::Unknown);
+                }
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0


From 5da6f10716b4d61a8eeee50918620ba2215b65aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 11/52] fix: look for other releases if one lacks a requested
 extra

---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 9a1619f..e59767d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -863,11 +863,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
-                        Err(eyre!(
-                            "package {} has no extra [{}]",
+                        warn!(
+                            "{} {} has no extra [{}]",
                             name.as_given(),
+                            version,
                             inner.as_given()
-                        ))?;
+                        );
+                        return Ok(Dependencies::Unknown);
                     }
                     let base = ResPkg::Package(name.clone(), None);
                     let exact = Range::exact(version.clone());
-- 
2.43.0


From b76e47b6fe29556241960abd58dfe3224f3d70f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 12/52] fix: releases with an unusable requires-python don't
 stop the resolution

- The index doesn't have to tell us about requires-python; if it doesn't, then
  skip the release once we find out.
- If what the index tells us doesn't parse, ignore that file, not all of them.
---
 src/resolve.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index e59767d..af4a541 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -396,9 +396,19 @@ fn fetch_and_sort_versions<'a>(
             if let (Some(python_version), Some(requires_python)) =
                 (python_version, &ai.requires_python)
             {
-                let requires_python: Specifiers = requires_python.parse()?;
-                if !requires_python.satisfied_by(python_version)? {
-                    continue;
+                let satisfied = requires_python
+                    .parse()
+                    .and_then(|specs: Specifiers| specs.satisfied_by(python_version));
+                match satisfied {
+                    Ok(true) => (),
+                    Ok(false) => continue,
+                    Err(err) => {
+                        warn!(
+                            "ignoring {}: bad data-requires-python: {:#}",
+                            ai.name, err
+                        );
+                        continue;
+                    }
                 }
             }
             // we found a valid artifact for this version. So this version is valid, and
@@ -809,11 +819,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                         .requires_python
                         .satisfied_by(&self.python_full_version)?
                     {
-                        Err(eyre!(
-                            "{} {}: bad requires-python, but pypi didn't tell us!",
-                            name.as_given(),
-                            version
-                        ))?;
+                        trace!("bad requires-python, but pypi didn't tell us!");
+                        continue;
                     }
                     trace!("<---- decision: {} {}", respkg.borrow(), version);
                     return Ok((respkg, Some(version.clone())));
-- 
2.43.0


From c6011ae52230660c50dbf9f1b2c78e2c76f62a6c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 13/52] fix: empty specifiers (no requires-python) can be read
 back

---
 src/vocab/specifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index b5f57e0..bc93aa6 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,10 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // no specifiers at all are written as the empty string
+        if input.trim().is_empty() {
+            return Ok(Specifiers::default());
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From ab3eebc224b78a1e82aa04a6130cec80a0070258 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 14/52] fix: refuse hashes that can't be file names or digests

---
 src/vocab/artifact_hash.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..02bcdb6 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,18 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // Hashes get used as file names, so we can't accept just anything here. And no
+        // hash worth the name is shorter than md5.
+        if mode.is_empty() || !mode.bytes().all(|b| b.is_ascii_alphanumeric()) {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        if raw_data.len() < 16 || (mode == "sha256" && raw_data.len() != 32) {
+            bail!("{:?} is not a {} hash", hex, mode);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From 47ac5465eea75c833c100dec985eb03949a635e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 15/52] fix: allow blanks after a version specifier, as PEP 508
 does

---
 src/vocab/reqparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..5c1081f 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -37,7 +37,7 @@ peg::parser! {
             }
 
         rule version_many() -> Specifiers
-            = specs:(version_one() ++ (_ ",")) { Specifiers(specs) }
+            = specs:(version_one() ++ (_ ",")) _ { Specifiers(specs) }
 
         pub rule versionspec() -> Specifiers
             = ("(" vm:version_many() ")" { vm }) / version_many()
-- 
2.43.0


From cd32d6b39811a6d1a052f762f7632dcc2c9a92ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 16/52] fix: refuse build numbers that are too large instead of
 dropping them

---
 src/vocab/artifact_name.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..028ab26 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -154,7 +154,10 @@ fn generic_parse(
         }
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
-        build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
+        build_number = match captures.get(1).map_or("", |m| m.as_str()) {
+            "" => None,
+            digits => Some(digits.parse()?),
+        };
         // unwrap safe because: this group will always match something, even
         // if only the empty string
         build_name = captures.get(2).unwrap().as_str().into();
-- 
2.43.0


From f6ecf013f854d3d05aa10afe37056cddb830c55c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:05 +0000
Subject: [PATCH 17/52] fix: order package names by their normal form, like
 they are compared

---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From cc1c3a5fe99e88428ea645cc40c56638a0d6ca54 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 18/52] fix: install the most compatible pinned binary, not the
 least compatible

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..9c61d79 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        // best first
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From f962066911b47afdb3950164bd45da15a0be9e0c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 19/52] fix: a <base> without href doesn't hide the page's base
 URL

---
 src/package_db/simple_api/html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..91776a5 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -157,9 +157,10 @@ impl TreeSink for Sink {
 
         if name.expanded() == BASE_TAG {
             // HTML spec says that only the first <base> is respected
+            // (well, the first with an href)
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From e1afb626f8db09ed4a72f3f44ea2c815aff718bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 20/52] fix: recognise percent-encoded file names on index
 pages

---
 src/package_db/simple_api/html.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 91776a5..2debfaf 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -68,6 +68,26 @@ fn get_attr<'a>(
     None
 }
 
+// The file name a URL path segment stands for, e.g. "foo-1.0%2Blocal.zip" is
+// "foo-1.0+local.zip".
+fn percent_decode(segment: &str) -> Option<String> {
+    let mut decoded = Vec::new();
+    let mut bytes = segment.bytes();
+    while let Some(byte) = bytes.next() {
+        let mut rest = bytes.clone();
+        let mut hex_digit = || char::from(rest.next()?).to_digit(16);
+        if byte == b'%' {
+            if let (Some(high), Some(low)) = (hex_digit(), hex_digit()) {
+                decoded.push((high * 16 + low) as u8);
+                bytes = rest;
+                continue;
+            }
+        }
+        decoded.push(byte);
+    }
+    String::from_utf8(decoded).ok()
+}
+
 fn parse_hash(s: &str) -> Option<ArtifactHash> {
     if let Some((mode, hex)) = s.split_once('=') {
         ArtifactHash::from_hex(mode, hex).ok()
@@ -83,7 +103,10 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let name: ArtifactName = percent_decode(url.path_segments()?.next_back()?)?
+            .as_str()
+            .try_into()
+            .ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From d13dab4d7a83aeafe3fb9ce4c3cde0c9192074b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 21/52] fix: pass on uncacheable responses instead of failing
 to remove nothing

---
 src/package_db/http/http.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..07a1297 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -226,7 +226,10 @@ impl HttpInner {
                               cache_status,
                               lock: KVFileLock| {
                 if !new_policy.is_storable() {
-                    lock.remove()?;
+                    // on a cache miss, there's nothing to remove
+                    if lock.reader().is_some() {
+                        lock.remove()?;
+                    }
                     Ok(make_response(
                         new_parts,
                         ReadPlusMaybeSeek::CannotSeek(Box::new(body)),
-- 
2.43.0


From 4fb51a39b08bdf3c4736e77abb577d43dede3836 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 22/52] fix: only read index pages from successful responses

---
 src/package_db/simple_api/fetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/fetch.rs b/src/package_db/simple_api/fetch.rs
index 729229b..8659e9f 100644
--- a/src/package_db/simple_api/fetch.rs
+++ b/src/package_db/simple_api/fetch.rs
@@ -23,7 +23,7 @@ pub fn fetch_simple_api(http: &Http, url: &Url) -> Result<Option<ProjectInfo>> {
     if response.status().as_u16() == 404 {
         return Ok(None);
     }
-    if response.status().as_u16() >= 400 {
+    if !response.status().is_success() {
         bail!("error fetching {url}: {}", response.status().as_str());
     }
     let url = response.extensions().get::<Url>().unwrap().to_owned();
-- 
2.43.0


From a3baf216b70d105293101ea708822ed37e39112a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 23/52] fix: unpack archives that list a directory again or
 after its contents

---
 src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..d472065 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,8 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        // it may exist already, e.g. because one of its members came first
+        Ok(fs::create_dir_all(self.full_path(path)?)?)
     }
 
     fn write_file(
-- 
2.43.0


From d55faf65c2d7d799144bf573c9fddf201a1f7b86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 24/52] fix: entry points may name modules and objects of one
 letter

---
 src/vocab/entry_points.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..0afa2e9 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
-- 
2.43.0


From d7bb8bc7dc1c5e8dcd761a7852e15e471b0d670a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 25/52] fix: indentation isn't part of an entry point's name

---
 src/vocab/entry_points.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 0afa2e9..3513a95 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,6 +19,7 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
+          \s*
           (?P<name> .*?)
           \s* = \s*
           (?P<module> [a-zA-Z_][a-zA-Z0-9_.]*)
-- 
2.43.0


From 9986f523c1f6303428c6e8d74235c6036c22a783 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 26/52] fix: keep the entry points of sections that appear
 twice, refuse those outside sections

---
 src/vocab/entry_points.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 3513a95..28b82fd 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -44,8 +44,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
-    let mut current_entries = Vec::<Entrypoint>::new();
+    let mut current_section_name: Option<String> = None;
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
         let line = COMMENT.replace(line, "");
@@ -53,30 +52,26 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
             continue;
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
-            if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
-            }
             current_section_name = Some(section_name.into());
-            current_entries = Vec::new();
         } else if let Some(captures) = ENTRY_LINE.captures(line.as_ref()) {
-            if current_section_name.is_none() {
-                bail!("missing section name in entry_points.txt");
-            }
+            let section_name = current_section_name
+                .as_ref()
+                .ok_or_else(|| eyre!("missing section name in entry_points.txt"))?;
             let name = captures.name("name").unwrap().as_str().to_string();
             let module = captures.name("module").unwrap().as_str().to_string();
             let object = captures.name("object").map(|m| m.as_str().to_string());
-            current_entries.push(Entrypoint {
-                name,
-                module,
-                object,
-            });
+            result
+                .entry(section_name.clone())
+                .or_default()
+                .push(Entrypoint {
+                    name,
+                    module,
+                    object,
+                });
         } else {
             bail!("malformed entry_points.txt line: '{line}'");
         }
     }
-    if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
-    }
     Ok(result)
 }
 
-- 
2.43.0


From 41a5718084ccef82c1ed8893e13c67f2bf4b6808 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 27/52] fix: files of wheels keep their executable bit

---
 src/vocab/artifact_formats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..cadbf75 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -561,7 +561,7 @@ where
         &mut self,
         path: &NicePathBuf,
         mut data: &mut dyn Read,
-        _executable: bool,
+        executable: bool,
     ) -> Result<()> {
         if let Some((fixed_path, is_script)) = self.analyze_path(path)? {
             if is_script {
@@ -591,7 +591,7 @@ where
                     self.dest.write_file(&fixed_path, &mut bufread, true)?;
                 }
             } else {
-                self.dest.write_file(&fixed_path, data, false)?;
+                self.dest.write_file(&fixed_path, data, executable)?;
             }
         }
         Ok(())
-- 
2.43.0


From e8496cfbbf3d47ae108c14938cc18a86d01ea957 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 28/52] fix: launchers of scripts start the script on a line of
 its own

---
 src/trampolines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..71dfc45 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,8 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // the script's first line can't follow on the closing quotes
+        out.push(b'\n');
         out.extend_from_slice(script);
         out
     }
-- 
2.43.0


From b81c37c25eacfb9da63fb1f0f6c4eb83bf34d8f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 29/52] fix: launchers keep the encoding declaration of the
 script they run

---
 src/trampolines/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index 71dfc45..006bd6f 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -60,7 +60,16 @@ impl TrampolineMaker {
             ScriptType::Console => UNIX_TEMPLATE.into(),
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
-        let mut out = prefix.into_bytes();
+        let mut out = Vec::new();
+        // an encoding declaration only counts on one of the first two lines
+        let (sh_line, rest) = prefix.split_at(prefix.find('\n').unwrap() + 1);
+        out.extend_from_slice(sh_line.as_bytes());
+        let first_line = script.split(|c| *c == b'\n').next().unwrap();
+        if CODING_LINE.is_match(first_line) {
+            out.extend_from_slice(first_line);
+            out.push(b'\n');
+        }
+        out.extend_from_slice(rest.as_bytes());
         // the script's first line can't follow on the closing quotes
         out.push(b'\n');
         out.extend_from_slice(script);
@@ -89,6 +98,11 @@ impl TrampolineMaker {
     }
 }
 
+// https://docs.python.org/3/reference/lexical_analysis.html#encoding-declarations
+static CODING_LINE: Lazy<regex::bytes::Regex> = Lazy::new(|| {
+    regex::bytes::Regex::new(r"(?-u)^[ \t\f]*#.*?coding[:=][ \t]*[-\w.]+").unwrap()
+});
+
 const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     #!/bin/sh
     ''':'
-- 
2.43.0


From 9591b56b0ea74b62b4fa15080ef02097ca1ea24f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 30/52] fix: the end of a slice is a valid position, so cached
 empty responses can be read

---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From 7ca4dbcbaff7a814b771b1c13427c9b106d7b52d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 31/52] fix: a 304 that doesn't confirm the stored response
 isn't an answer

---
 src/package_db/http/http.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 07a1297..cf03183 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -264,10 +264,10 @@ impl HttpInner {
                         if cache_mode == CacheMode::OnlyIfCached {
                             return Err(NotCached {}.into());
                         }
-                        let request = http::Request::from_parts(new_parts, ());
-                        let response = do_request_ureq(&self.agent, &request)?;
+                        let conditional = http::Request::from_parts(new_parts, ());
+                        let response = do_request_ureq(&self.agent, &conditional)?;
                         match old_policy.after_response(
-                            &request,
+                            &conditional,
                             &response,
                             SystemTime::now(),
                         ) {
@@ -279,6 +279,26 @@ impl HttpInner {
                                     CacheStatus::StaleButValidated,
                                 ))
                             }
+                            AfterResponse::Modified(..)
+                                if response.status().as_u16() == 304 =>
+                            {
+                                // The server confirmed something, but not what we have
+                                // (or it doesn't say). A 304 has no body that we could
+                                // return, so get the whole response.
+                                drop(old_body);
+                                let response =
+                                    do_request_ureq(&self.agent, request)?;
+                                let new_policy =
+                                    CachePolicy::new(request, &response);
+                                let (parts, body) = response.into_parts();
+                                handle_new(
+                                    new_policy,
+                                    parts,
+                                    body,
+                                    CacheStatus::StaleAndChanged,
+                                    lock,
+                                )
+                            }
                             AfterResponse::Modified(new_policy, new_parts) => {
                                 drop(old_body);
                                 handle_new(
-- 
2.43.0


From 69f1a0bc0acdf521e63b473fed9f9be04b414813 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 32/52] fix: HEAD requests follow redirects too, so lazy reads
 can

---
 src/package_db/http/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index cf03183..8b75f4f 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -330,7 +330,7 @@ impl HttpInner {
         mut request: http::Request<()>,
         cache_mode: CacheMode,
     ) -> Result<http::Response<ReadPlusMaybeSeek>> {
-        let max_redirects = if request.method() == http::method::Method::GET {
+        let max_redirects = if request.method().is_safe() {
             MAX_REDIRECTS
         } else {
             0
-- 
2.43.0


From fecf57088b735348131b620264ba6e9ed68ed073 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 33/52] fix: an error page isn't the file that was asked for

---
 src/package_db/http/http.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 8b75f4f..e9d192f 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -358,6 +358,19 @@ impl HttpInner {
         unreachable!()
     }
 
+    // Like 'request', but an error page isn't the file that we asked for.
+    fn request_file(
+        &self,
+        request: http::Request<()>,
+        cache_mode: CacheMode,
+    ) -> Result<http::Response<ReadPlusMaybeSeek>> {
+        let response = self.request(request, cache_mode)?;
+        if !response.status().is_success() {
+            bail!("error fetching file: {}", response.status());
+        }
+        Ok(response)
+    }
+
     pub fn get_hashed(
         &self,
         url: &Url,
@@ -368,8 +381,9 @@ impl HttpInner {
         match (maybe_hash, cache_mode) {
             (Some(hash), CacheMode::Default) => {
                 Ok(self.hash_cache.get_or_set(&hash, |mut w| {
-                    let mut body =
-                        self.request(request, CacheMode::NoStore)?.into_body();
+                    let mut body = self
+                        .request_file(request, CacheMode::NoStore)?
+                        .into_body();
                     let mut checker = hash.checker(&mut w)?;
                     std::io::copy(&mut body, &mut checker)?;
                     checker.finish()?;
@@ -380,7 +394,7 @@ impl HttpInner {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
             (_, CacheMode::NoStore) | (None, _) => Ok(self
-                .request(request, cache_mode)?
+                .request_file(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
         }
-- 
2.43.0


From 5d07c7e15deb49093fbd02e8653afc07f7706c7e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/52] fix: check what a server sends for a range before
 believing it

---
 src/package_db/http/lazy_remote_file.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..ac53e56 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -146,9 +146,21 @@ impl LazyRemoteFile {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, mut data, ..
+                offset: got_offset,
+                total_len,
+                mut data,
             } => {
-                self.loaded.insert(offset, slurp(&mut data)?);
+                if total_len != self.length {
+                    bail!("file changed size while reading it");
+                }
+                if got_offset != offset {
+                    bail!("asked for data at {offset}, but got {got_offset}");
+                }
+                let data = slurp(&mut data)?;
+                if data.len() as u64 > length {
+                    bail!("asked for {length} bytes, but got {}", data.len());
+                }
+                self.loaded.insert(offset, data);
                 Ok(())
             }
             RangeResponse::Complete(_) => {
@@ -225,16 +237,19 @@ impl Read for LazyRemoteFile {
         } else {
             self.seek_pos
         };
-        let fetch_end = fetch_start + LAZY_FETCH_SIZE;
+        let fetch_end = fetch_start.saturating_add(LAZY_FETCH_SIZE);
         let fetch_start = fetch_start.clamp(gap_start, gap_end);
         let fetch_end = fetch_end.clamp(gap_start, gap_end);
         fix_err(self.load_range(fetch_start, fetch_end - fetch_start))?;
-        // now it's definitely in cache
+        // now it's in cache, if the server sent all that we asked for
         if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
             self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
             return Ok(len);
         }
-        unreachable!("and you may ask yourself, well, how did I get here?")
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            "server sent less of the file than we asked for",
+        ))
     }
 }
 
-- 
2.43.0


From 88b6c90755e93e2769fdd8c70b3e71aa535fc58f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 35/52] fix: a file downloaded without a hash starts at its
 beginning

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index e9d192f..abaa4db 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From 16bd527996939535d27439e7800bb028640ab84a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 36/52] fix: don't lose cache directives that are spread over
 several lines

---
 src/package_db/http/ureq_glue.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/ureq_glue.rs b/src/package_db/http/ureq_glue.rs
index ac9df33..6c448d2 100644
--- a/src/package_db/http/ureq_glue.rs
+++ b/src/package_db/http/ureq_glue.rs
@@ -62,6 +62,8 @@ fn call_with_retry(
     }
 }
 
+const LIST_FIELDS: &[&str] = &["cache-control", "pragma", "vary"];
+
 pub fn do_request_ureq(
     agent: &Agent,
     req: &http::Request<()>,
@@ -73,9 +75,19 @@ pub fn do_request_ureq(
     }
     let ureq_response = call_with_retry(ureq_req).or_any_status()?;
     let mut response = http::Response::builder().status(ureq_response.status());
+    // Fields that the cache's decisions depend on may be spread over several lines, but
+    // http_cache_semantics only keeps one line of each when it updates a stored response.
+    for name in LIST_FIELDS {
+        let values = ureq_response.all(name);
+        if !values.is_empty() {
+            response = response.header(*name, values.join(", "));
+        }
+    }
     for name in ureq_response.headers_names() {
-        for value in ureq_response.all(&name) {
-            response = response.header(&name, value);
+        if !LIST_FIELDS.contains(&name.as_str()) {
+            for value in ureq_response.all(&name) {
+                response = response.header(&name, value);
+            }
         }
     }
     Ok(response.body(ureq_response.into_reader())?)
-- 
2.43.0


From 42c9fea18503e8c44eefb19165842450b8c923d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 37/52] fix: only build source distributions whose hash is in
 the blueprint

---
 src/env.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 9c61d79..a0772fa 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -181,10 +181,17 @@ impl EnvForest {
                             _ => return Err(err),
                         };
                         // couldn't find a compatible wheel; see if we have an sdist
+                        // that the blueprint allows
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |h| pin.hashes.contains(h))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From 3fec133424736ce57743c6400ea9405f18fb3d2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 38/52] fix: a package that is needed to build itself is an
 error, not a hang

---
 src/env.rs     | 79 +++++++++++++++++++++++++++++++++++---------------
 src/kvstore.rs |  4 +++
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index a0772fa..29f1336 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -76,6 +76,38 @@ where
     })?
 }
 
+// Looks through the unpacked wheels that were built from one sdist for the one that fits
+// best.
+fn find_unpacked_wheel(
+    dir: &Path,
+    wheel_platform: &WheelPlatform,
+) -> Result<Option<PathBuf>> {
+    let entries = match fs::read_dir(dir) {
+        Ok(entries) => entries,
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
+        Err(err) => Err(err)?,
+    };
+    let mut candidates = Vec::new();
+    for entry in entries {
+        let entry = entry?;
+        let name = match entry.file_name().into_string() {
+            Ok(name) => name,
+            Err(_) => continue,
+        };
+        if !name.ends_with(".whl") {
+            continue;
+        }
+        let wheel_name: WheelName = name.as_str().try_into()?;
+        if let Some(score) = wheel_platform.max_compatibility(wheel_name.all_tags()) {
+            candidates.push((score, name));
+        }
+    }
+    Ok(candidates
+        .into_iter()
+        .max_by_key(|(score, _)| *score)
+        .map(|(_, name)| dir.join(name)))
+}
+
 impl EnvForest {
     pub fn new(base: &Path) -> Result<EnvForest> {
         Ok(EnvForest {
@@ -154,7 +186,7 @@ impl EnvForest {
 
         for (pin, expected_metadata) in &blueprint.wheels {
             context!("installing {} {}", pin.name.as_given(), pin.version);
-            let (ai, wheel_root) =
+            let (ai, wheel_root) = 'found: {
                 match pick_pinned_binary::<Wheel>(db, &[&wheel_platform], pin) {
                     Ok((wheel_ai, _)) => {
                         // we're using a binary wheel
@@ -195,31 +227,29 @@ impl EnvForest {
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
+                            // First check if we already have any unpacked wheels that
+                            // we can use. They never change, so this doesn't need the
+                            // lock -- which we may be holding already, if we're in
+                            // the middle of building this very package.
+                            let sdist_dir = self.store.path(&sdist_hash);
+                            if let Some(wheel_root) =
+                                find_unpacked_wheel(&sdist_dir, &wheel_platform)?
+                            {
+                                break 'found (sdist_ai, wheel_root);
+                            }
+                            if build_stack.contains(&&pin.name) {
+                                bail!(
+                                    "build dependency loop: {} is needed to build itself",
+                                    pin.name.as_given()
+                                );
+                            }
                             let handle = self.store.lock(&sdist_hash)?;
                             fs::create_dir_all(&handle)?;
-                            // first check if we already have any unpacked wheels
-                            // that we can use
-                            let mut candidates = Vec::new();
-                            for entry in fs::read_dir(&handle)? {
-                                let entry = entry?;
-                                let name = match entry.file_name().into_string() {
-                                    Ok(name) => name,
-                                    Err(_) => continue,
-                                };
-                                if !name.ends_with(".whl") {
-                                    continue;
-                                }
-                                let wheel_name: WheelName = name.as_str().try_into()?;
-                                if let Some(score) = wheel_platform
-                                    .max_compatibility(wheel_name.all_tags())
-                                {
-                                    candidates.push((score, name));
-                                }
-                            }
-                            if let Some((_, name)) =
-                                candidates.iter().max_by_key(|(score, _)| score)
+                            // maybe someone else built it while we waited
+                            if let Some(wheel_root) =
+                                find_unpacked_wheel(&handle, &wheel_platform)?
                             {
-                                (sdist_ai, handle.join(name))
+                                (sdist_ai, wheel_root)
                             } else {
                                 // couldn't find one already installed... try to
                                 // build one and install it
@@ -247,7 +277,8 @@ impl EnvForest {
                             bail!("no compatible wheel or sdist found");
                         }
                     }
-                };
+                }
+            };
 
             // OK, we have an installed wheel. Find its metadata so we can confirm it's
             // consistent with what the blueprint was expecting.
diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..ee5f901 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -343,6 +343,10 @@ impl KVDirStore {
         })
     }
 
+    pub fn path<K: PathKey>(&self, key: &K) -> PathBuf {
+        self.base.join(key.key())
+    }
+
     pub fn lock<K: PathKey>(&self, key: &K) -> Result<KVDirLock> {
         let path = self.base.join(key.key());
         let lock = lock(&path, LockMode::Lock)?;
-- 
2.43.0


From 57415ac7779d487d32bd0dd8ee88b0dab7d15e09 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 39/52] fix: start over after an unfinished build step, and
 don't repeat a step forever

---
 src/package_db/build_wheel.rs               | 26 +++++++++++-----
 src/package_db/data-files/build-frontend.py | 33 ++++++++++++++++-----
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..86f1efd 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -354,12 +354,22 @@ impl<'a> WheelBuilder<'a> {
         let build_wheel = handle.join("build_wheel");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
+        // The build frontend writes these files once it's done with a step. (The
+        // directories exist before that, maybe with leftovers from a failed attempt.)
+        let build_wheel_out = handle.join("build_wheel.out");
+        let prepare_metadata_out = handle.join("prepare_metadata_for_build_wheel.out");
+        let requires_out = handle.join("get_requires_for_build_wheel");
+        let steps_done = || {
+            [&build_wheel_out, &prepare_metadata_out, &requires_out]
+                .iter()
+                .filter(|path| path.exists())
+                .count()
+        };
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
-            if build_wheel.exists() {
+            if build_wheel_out.exists() {
                 // Get the name the build backend returned
-                let name =
-                    String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
+                let name = String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
@@ -390,18 +400,20 @@ impl<'a> WheelBuilder<'a> {
 
             // Or if our goal is metadata and we have it, we're done
             if goal == Pep517Goal::WheelMetadata
-                && prepare_metadata_for_build_wheel.exists()
+                && prepare_metadata_out.exists()
             {
-                let name = String::from_utf8(fs::read(
-                    handle.join("prepare_metadata_for_build_wheel.out"),
-                )?)?;
+                let name = String::from_utf8(fs::read(&prepare_metadata_out)?)?;
                 return Ok(Pep517Succeeded::WheelMetadata {
                     handle,
                     dist_info: prepare_metadata_for_build_wheel.join(name),
                 });
             }
             // Otherwise, we're not done. Turn the crank again.
+            let before = steps_done();
             self.pep517_step(&handle, goal, new_build_stack)?;
+            if steps_done() <= before {
+                bail!("build backend exited without doing anything");
+            }
         }
     }
 
diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..e1c3185 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -6,6 +6,8 @@ from pathlib import Path
 from importlib import import_module
 from sys import exit
 from json import loads, dumps
+from os import replace
+from shutil import rmtree
 
 ################################################################
 # Begin janky attempt to workaround
@@ -33,6 +35,22 @@ distutils.sysconfig.get_python_inc = get_python_inc
 work_dir = Path(work_dir)
 build_system = loads((work_dir / "build-system.json").read_text("utf-8"))
 
+
+
+# Our caller takes the existence of these files to mean that the step is done
+def write_result(name, text):
+    tmp = work_dir / (name + ".tmp")
+    tmp.write_text(text, "utf-8")
+    replace(tmp, work_dir / name)
+
+
+def make_empty_dir(path):
+    # there might be leftovers of a previous attempt that failed
+    if path.exists():
+        rmtree(path)
+    path.mkdir()
+
+
 backend_paths = []
 cwd = Path.cwd().absolute()
 for backend_path in build_system["backend-path"]:
@@ -57,25 +75,26 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         requires = []
     else:
         requires = f()
-    (work_dir / "get_requires_for_build_wheel").write_text(dumps(requires), "utf-8")
+    write_result("get_requires_for_build_wheel", dumps(requires))
     if requires:
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
+metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
-    metadata_dir.mkdir()
+    make_empty_dir(metadata_dir)
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    write_result("prepare_metadata_for_build_wheel.out", dist_info)
     exit(0)
 
 wheel_dir = work_dir / "build_wheel"
-wheel_dir.mkdir()
+make_empty_dir(wheel_dir)
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    metadata_directory=str(metadata_dir) if metadata_out.exists() else None,
 )
 
-(work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-(work_dir / "build_wheel.binary_wheel_tag").write_text(binary_wheel_tag, "utf-8")
+write_result("build_wheel.binary_wheel_tag", binary_wheel_tag)
+write_result("build_wheel.out", wheel_basename)
 exit(0)
-- 
2.43.0


From 64d81139c7903f0781a181761fd059060a220e2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 40/52] fix: never leave a partial copy of a wheel in the local
 wheel cache

---
 src/package_db/build_wheel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 86f1efd..5471a7e 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -391,7 +391,13 @@ impl<'a> WheelBuilder<'a> {
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
+                    // probably on different filesystems; make sure that no-one ever
+                    // sees a partial copy
+                    let tmp = wheel_cache_handle.tempdir()?;
+                    let tmp_path = tmp.path().join("wheel");
+                    fs::copy(&wheel_path, &tmp_path)?;
+                    fs::File::open(&tmp_path)?.sync_data()?;
+                    fs::rename(&tmp_path, &target_path)?;
                 }
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
-- 
2.43.0


From ef4cb6758e6607016785356ec34985fdc73c1909 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 41/52] fix: build a wheel again when the one that was built is
 for another Python

---
 src/package_db/build_wheel.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 5471a7e..40fcfca 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -390,6 +390,9 @@ impl<'a> WheelBuilder<'a> {
                 };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
+                // From now on, it's not here anymore: if we're asked again, then it's
+                // because the one in the cache doesn't fit.
+                fs::remove_file(&build_wheel_out)?;
                 if fs::rename(&wheel_path, &target_path).is_err() {
                     // probably on different filesystems; make sure that no-one ever
                     // sees a partial copy
@@ -459,7 +462,16 @@ impl<'a> WheelBuilder<'a> {
         let saved_blueprint_path = handle.join("saved-blueprint.json");
         let saved_blueprint: Option<Blueprint> = fs::File::open(&saved_blueprint_path)
             .ok()
-            .and_then(|f| serde_json::from_reader(f).ok());
+            .and_then(|f| serde_json::from_reader(f).ok())
+            // if that was for another Python, then it's no use
+            .filter(|b: &Blueprint| {
+                let minor = |v: &Version| {
+                    let release = &v.0.release;
+                    (v.0.epoch, release.iter().take(2).copied().collect::<Vec<_>>())
+                };
+                b.pybi.name == *self.target_python
+                    && minor(&b.pybi.version) == minor(self.target_python_version)
+            });
 
         let mut build_requires = build_system.requires;
         build_requires.extend(dynamic_requires);
-- 
2.43.0


From c6b329a21526a1e1e7e4da9d9117da20a9006533 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 42/52] fix: pass the .dist-info directory as
 metadata_directory, as PEP 517 says

---
 src/package_db/data-files/build-frontend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index e1c3185..adc63ed 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -90,9 +90,14 @@ if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_whee
 
 wheel_dir = work_dir / "build_wheel"
 make_empty_dir(wheel_dir)
+# PEP 517: the .dist-info directory that prepare_metadata_for_build_wheel created
+if metadata_out.exists():
+    metadata_directory = str(metadata_dir / metadata_out.read_text("utf-8"))
+else:
+    metadata_directory = None
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_out.exists() else None,
+    metadata_directory=metadata_directory,
 )
 
 write_result("build_wheel.binary_wheel_tag", binary_wheel_tag)
-- 
2.43.0


From 3fcbe1e404afada1bfdb1889cea3fda68fab3ec8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 43/52] fix: what is built from a source distribution must have
 its name and version

---
 src/package_db/build_wheel.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 40fcfca..cca0126 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -67,6 +67,22 @@ enum Pep517Succeeded {
     },
 }
 
+fn check_built(
+    sdist_ai: &ArtifactInfo,
+    name: &PackageName,
+    version: &Version,
+) -> Result<()> {
+    if name != sdist_ai.name.distribution() || version != sdist_ai.name.version() {
+        bail!(
+            "building {} gave us {} {}",
+            sdist_ai.name,
+            name.as_given(),
+            version
+        );
+    }
+    Ok(())
+}
+
 impl<'a> WheelBuilder<'a> {
     pub fn new(
         db: &'a PackageDB,
@@ -189,7 +205,9 @@ impl<'a> WheelBuilder<'a> {
                 dist_info,
             } => {
                 let metadata_buf = fs::read(dist_info.join("METADATA"))?;
-                let metadata = metadata_buf.as_slice().try_into()?;
+                let metadata: WheelCoreMetadata =
+                    metadata_buf.as_slice().try_into()?;
+                check_built(sdist_ai, &metadata.name, &metadata.version)?;
                 Ok((metadata_buf, metadata))
             }
             Pep517Succeeded::Wheel { wheel } => Ok(wheel.metadata()?),
@@ -371,6 +389,7 @@ impl<'a> WheelBuilder<'a> {
                 // Get the name the build backend returned
                 let name = String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
+                check_built(sdist_ai, &wheel_name.distribution, &wheel_name.version)?;
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
                 // environment.
-- 
2.43.0


From 812be85b755441ced881831be585fc1e282c65d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 44/52] fix: build with a prerelease Python when that's the
 target

---
 src/package_db/build_wheel.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index cca0126..213fe7f 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -220,6 +220,11 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        let allow_pre = if self.target_python_version.is_prerelease() {
+            AllowPre::Some([self.target_python.clone()].into())
+        } else {
+            Default::default()
+        };
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -232,7 +237,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre,
             }
             .resolve(
                 self.db,
@@ -298,15 +303,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre.clone(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -331,7 +331,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre,
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0


From 81bdbd9be19669514b4f78a0130d110da1385839 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 45/52] fix: check the name and version of a Python that was
 unpacked earlier

---
 src/env.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/env.rs b/src/env.rs
index 29f1336..46954a0 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -163,6 +163,19 @@ impl EnvForest {
             fs::read(pybi_root.join("pybi-info").join("METADATA"))?
                 .as_slice()
                 .try_into()?;
+        // if it was unpacked earlier, then it might have been under another name
+        if pybi_metadata.name != blueprint.pybi.name
+            || pybi_metadata.version != blueprint.pybi.version
+        {
+            bail!(
+                "{} contains {} {}, not {} {}",
+                pybi_ai.url,
+                pybi_metadata.name.as_given(),
+                pybi_metadata.version,
+                blueprint.pybi.name.as_given(),
+                blueprint.pybi.version
+            );
+        }
         let wheel_platform = pybi_platform.wheel_platform(&pybi_metadata)?;
         let pybi_platform_slice = [pybi_platform];
         let wheel_builder = WheelBuilder::new(
-- 
2.43.0


From 2d4483c41049a563aecf032b2df53a07d89ec638 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 46/52] fix: a file wrongly taken for a source distribution
 left a directory that looked like an installed wheel

---
 src/env.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 46954a0..864b32c 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -257,7 +257,6 @@ impl EnvForest {
                                 );
                             }
                             let handle = self.store.lock(&sdist_hash)?;
-                            fs::create_dir_all(&handle)?;
                             // maybe someone else built it while we waited
                             if let Some(wheel_root) =
                                 find_unpacked_wheel(&handle, &wheel_platform)?
@@ -283,6 +282,9 @@ impl EnvForest {
                                 )?;
                                 let wheel_root =
                                     handle.join(local_wheel.name().to_string());
+                                // not earlier: if that wasn't an sdist at all, then
+                                // there mustn't be anything here
+                                fs::create_dir_all(&handle)?;
                                 fs::rename(tmp.into_path(), &wheel_root)?;
                                 (sdist_ai, wheel_root)
                             }
-- 
2.43.0


From 9b3a4985a545f71e70f04d6a546388536e07ad3d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 47/52] fix: check the name and version of metadata that was
 cached earlier

---
 src/package_db/package_db.rs  |  8 +++++++-
 src/vocab/artifact_formats.rs | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 002a55b..b847da0 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -140,7 +140,13 @@ impl<'db> PackageDB<'db> {
         // cache metadata for wheels as well.
         for ai in artifacts.iter().map(|b| b.borrow()) {
             if let Some(cm) = self.metadata_from_cache(ai) {
-                return Ok((ai, T::parse_metadata(cm.as_slice())?));
+                let metadata = T::parse_metadata(cm.as_slice())?;
+                // we might have cached it for a file of another name
+                let (name, version) = T::name_and_version(&metadata);
+                if name != ai.name.distribution() || version != ai.name.version() {
+                    bail!("{} contains {} {}", ai.name, name.as_given(), version);
+                }
+                return Ok((ai, metadata));
             }
         }
 
diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index cadbf75..97eee1d 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -117,6 +117,9 @@ pub trait BinaryArtifact: Artifact {
     // useful (https://github.com/pypa/setuptools/issues/2685)
     fn parse_metadata(value: &[u8]) -> Result<Self::Metadata>;
 
+    // what the metadata says that it's about
+    fn name_and_version(metadata: &Self::Metadata) -> (&PackageName, &Version);
+
     // used to parse from an actual binary artifact; finds the right metadata directory,
     // and also parses/validates the WHEEL/PYBI metadata, not just the core metadata.
     // Also returns the raw core metadata file contents, because sometimes we want to
@@ -327,6 +330,10 @@ impl BinaryArtifact for Wheel {
         value.try_into()
     }
 
+    fn name_and_version(metadata: &Self::Metadata) -> (&PackageName, &Version) {
+        (&metadata.name, &metadata.version)
+    }
+
     fn metadata(&self) -> Result<(Vec<u8>, Self::Metadata)> {
         context!("Reading metadata from {}", self.name);
         let WheelVitals {
@@ -373,6 +380,10 @@ impl BinaryArtifact for Pybi {
         value.try_into()
     }
 
+    fn name_and_version(metadata: &Self::Metadata) -> (&PackageName, &Version) {
+        (&metadata.name, &metadata.version)
+    }
+
     fn metadata(&self) -> Result<(Vec<u8>, Self::Metadata)> {
         let mut z = self.z.borrow_mut();
         let format_metadata_blob = slurp_from_zip(&mut z, "pybi-info/PYBI")?;
-- 
2.43.0


From c6038170266b15f9a9c4f0ad6bce9538f5f81e1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 48/52] fix: without packages, the current directory became a
 site directory

---
 src/data-files/sitecustomize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 3236cd9..9723a51 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,7 +3,10 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        site.addsitedir(path)
+        # (if there are no packages, then that's [""], and "" would mean the current
+        # directory)
+        if path:
+            site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From b6acb2a8d3deccc70ec0bbdb118ecbc7a887fa95 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 49/52] fix: ignore the user's site directory with Python 3.11
 and later, too

---
 src/data-files/sitecustomize.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 9723a51..02204f0 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -1,5 +1,18 @@
 import os, sys, site
 
+if site.ENABLE_USER_SITE:
+    # Since 3.11, Python has its own copy of site.py built in, so it doesn't see that
+    # ours says not to use the user's site directory. Take it out again, along with
+    # whatever its .pth files have added after it.
+    site.ENABLE_USER_SITE = False
+    user_site = os.path.abspath(site.getusersitepackages())
+    if user_site in sys.path:
+        start = end = sys.path.index(user_site)
+        site_packages = [os.path.abspath(path) for path in site.getsitepackages()]
+        while end < len(sys.path) and sys.path[end] not in site_packages:
+            end += 1
+        del sys.path[start:end]
+
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-- 
2.43.0


From 0416e6a7ade9f5b6f18e60d0e30a9d7f5ece3ac6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 50/52] Revert "fix: ignore the user's site directory with
 Python 3.11 and later, too"

This reverts commit b6acb2a8d3deccc70ec0bbdb118ecbc7a887fa95.
---
 src/data-files/sitecustomize.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 02204f0..9723a51 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -1,18 +1,5 @@
 import os, sys, site
 
-if site.ENABLE_USER_SITE:
-    # Since 3.11, Python has its own copy of site.py built in, so it doesn't see that
-    # ours says not to use the user's site directory. Take it out again, along with
-    # whatever its .pth files have added after it.
-    site.ENABLE_USER_SITE = False
-    user_site = os.path.abspath(site.getusersitepackages())
-    if user_site in sys.path:
-        start = end = sys.path.index(user_site)
-        site_packages = [os.path.abspath(path) for path in site.getsitepackages()]
-        while end < len(sys.path) and sys.path[end] not in site_packages:
-            end += 1
-        del sys.path[start:end]
-
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-- 
2.43.0


From f6c2a43c099e8e0313d7aeba60db964b8778ea1e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 51/52] Revert "fix: without packages, the current directory
 became a site directory"

This reverts commit c6038170266b15f9a9c4f0ad6bce9538f5f81e1c.
---
 src/data-files/sitecustomize.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 9723a51..3236cd9 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,10 +3,7 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        # (if there are no packages, then that's [""], and "" would mean the current
-        # directory)
-        if path:
-            site.addsitedir(path)
+        site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From 0253c6a2336c166e020ea9618a61bcba48171cbb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 52/52] fix: a kept wheel was replaced when its metadata was
 built again, and junk was kept

---
 src/package_db/build_wheel.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 213fe7f..b96922e 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -412,7 +412,13 @@ impl<'a> WheelBuilder<'a> {
                 // From now on, it's not here anymore: if we're asked again, then it's
                 // because the one in the cache doesn't fit.
                 fs::remove_file(&build_wheel_out)?;
-                if fs::rename(&wheel_path, &target_path).is_err() {
+                // Don't keep anything that isn't a wheel at all.
+                Wheel::new(wheel_name.clone(), Box::new(fs::File::open(&wheel_path)?))?;
+                // If there's one already -- it was built before, but only for its
+                // metadata -- then we stay with that; what's there never changes.
+                if !target_path.exists()
+                    && fs::rename(&wheel_path, &target_path).is_err()
+                {
                     // probably on different filesystems; make sure that no-one ever
                     // sees a partial copy
                     let tmp = wheel_cache_handle.tempdir()?;
-- 
2.43.0

