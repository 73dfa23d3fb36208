From b6c1123f5ecd866894c4ff65e20e1cfd5b2de02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 01/15] fix: normalize open and extreme intervals to a point or
 nothing when that is what they hold

---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From f36c5c764623ae62cbbee26bf395294bd67a1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 02/15] fix: denormalize inclusive half-bounded intervals
 outward

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From ccc13ac024ed0986314b4663aeb0893302c9a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 03/15] fix: enclose_all starts from the empty interval

---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 004a9869b1c8e5989424a117351a20dee253df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 04/15] fix: union_all merges every interval touched by the
 next one

---
 src/raw_interval.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..28bacd9 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -419,15 +419,16 @@ impl<T> RawInterval<T> where T: Ord + Clone {
                 if next == Self::Full {
                     return vec![Self::Full];
                 }
-                let mut append = true;
-                for item in &mut prev {
-                    if item.intersects(&next) || item .is_adjacent_to(&next) {
-                        *item = item.enclose(&next);
-                        append = false;
-                        break;
-                    }
-                }
-                if append {prev.push(next);}
+                // Merge every item touched by the next interval. The items are
+                // pairwise separate, so the enclosure touches no others.
+                let mut merged = next.clone();
+                prev.retain(|item| {
+                    let separate = !item.intersects(&next) 
+                        && !item.is_adjacent_to(&next);
+                    if !separate {merged = merged.enclose(item);}
+                    separate
+                });
+                prev.push(merged);
                 prev
             })
         } else {
-- 
2.43.0


From 6eef784aa7681e7ce3d5fcc85104081c6ec8f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 05/15] fix: reject text around the symbols of a parsed
 interval

---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 28bacd9..321d1fa 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -463,14 +463,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -482,7 +482,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


From a683a3745d91b653147a5f637ed77e907b1da7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 06/15] fix: iterate interval trees from both ends across
 excluded points

---
 src/tine_tree.rs | 72 +++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..78069d2 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -1033,13 +1033,17 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.inner.next() {
+                        // An excluded point bounds the next interval too.
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1069,13 +1073,17 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        // An excluded point bounds the next interval too.
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -1122,13 +1130,17 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        // An excluded point bounds the next interval too.
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1159,13 +1171,17 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        // An excluded point bounds the next interval too.
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From ffd5e9a9c59d47993ea9ecde5db3aa3994200fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 07/15] fix: intersect and subtract boundary tines by what they
 cover

---
 src/tine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..46be84a 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,8 +182,9 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(_),          &Point(Include(_))) => None,
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
-            (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Point(Include(l))),
             (Lower(_),          &Upper(_))          => None,
@@ -202,8 +203,9 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(_),          &Point(Include(_))) => None,
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
-            (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Upper(Include(_))) => Some(Upper(Exclude(l))),
@@ -226,6 +228,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +242,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +253,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
-- 
2.43.0


From 04cd7e6e8971d293dcc59fe5e07c9f89985c608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 08/15] fix: subtract from interval trees by what the tree
 covers at each end

---
 src/tine_tree.rs | 142 ++++++-----------------------------------------
 1 file changed, 18 insertions(+), 124 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 78069d2..d15e28b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -631,21 +631,13 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn minus_point_interval(&mut self, p: Tine<T>) {
         let mut ts = self.exterior_split_for_point_interval(&p);
 
-        let p = if ts[1].is_some() {
-            if let Some(merged) = ts[1]
-                .take()
-                .and_then(|pt| pt.minus(&p)) 
-            {
-                merged
-            } else {
-                // If the point annhilates, then we've already joined two
-                // intervals by removing the Point(Exclude(_)) from the tree in
-                // minus_split_tree_point. So nothing else needs to happen.
-                return;
+        // A tine at the point already knows what lies on either side of it.
+        if let Some(tine) = ts[1].take() {
+            if let Some(merged) = tine.minus(&p) {
+                self.0.insert(merged);
             }
-        } else {
-            p
-        };
+            return;
+        }
         
         // We need to detect whether the point is inside or outside an interval.
         // To do this, we look at the tines before and after the interval.
@@ -666,19 +658,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
                 //   |
                 self.0.insert(p.invert());
             },
-            (true,  false) => {
-                // ( )   ( )
-                //   |
-                debug_assert!(p.is_upper_bound());
-                self.0.insert(p);
-            },
-            (false, true)  => {
-                // ( )   ( )
-                //       |
-                debug_assert!(p.is_lower_bound());
-                self.0.insert(p);
-            },
-            (false, false) => {
+            _              => {
                 // ( )   ( )
                 //     |
                 // Do nothing.
@@ -689,23 +669,9 @@ impl<T> TineTree<T> where T: Ord + Clone {
 
     /// Internal implementation of `minus_in_place`, handling the proper
     /// interval case.
-    #[allow(clippy::items_after_statements)]
     fn minus_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.exterior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap
-        let merged_l = if ts[1].is_some() {
-            ts[1].take().and_then(|lower| lower.minus(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[2].is_some() {
-            ts[2].take().and_then(|upper| upper.minus(&u))
-        } else {
-            Some(u)
-        };
-
         // We need to detect whether the interval is inside or outside an 
         // existing interval. To do this, we look at the tines before and after
         // the interval.
@@ -716,90 +682,18 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
         
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surounding interval.
-        use Bound::*;
-        use Tine::*;
-        match (open_before, merged_l, merged_u, closed_after) {
-            (true,  Some(l), Some(u), true)  => {
-                // ( ) ( )
-                //  (   )
-                //     O R
-                // ( ) ( )
-                //   ( )
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-            },
-            (true,  Some(l), upper,   false)  => {
-                // ( )
-                //  ( )
-                //     O R
-                // ( )
-                //   ( )
-                //     O R
-                // (   )
-                //   ( )
-                //     O R
-                // (   ]
-                //   ( )
-                //     O R
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                if let Some(Point(Include(p))) = upper {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, lower,   Some(u), true)   => {
-                //  ( )
-                // ( )
-                //     O R
-                //   ( )
-                // ( )
-                //     O R
-                // (   )
-                // ( )
-                //     O R
-                // [   )
-                // ( )
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-                if let Some(Point(Include(p))) = lower {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, Some(l), Some(u), false)  => {
-                //  ( )
-                // (   )
-                //     O R
-                // [ ]
-                // ( )
-                if l.is_point_include() { self.0.insert(l); }
-                if u.is_point_include() { self.0.insert(u); }
-            },
-
-            (false, Some(l), None,    false)  => {
-                // [ )
-                // ( )
-                //     O R
-                //   |
-                // ( ]
-                if l.is_point_include() { self.0.insert(l); }
-            },
-
-            (false, None,    Some(u), false)  => {
-                // ( ]
-                // ( )
-                //     O R
-                // |
-                // [ )
-                if u.is_point_include() { self.0.insert(u); }
-            },
+        // Merge tines if overlap, or cut any surrounding interval.
+        let merged_l = match ts[1].take() {
+            Some(lower) => lower.minus(&l),
+            None        => open_before.then(|| l.invert()),
+        };
+        let merged_u = match ts[2].take() {
+            Some(upper) => upper.minus(&u),
+            None        => closed_after.then(|| u.invert()),
+        };
 
-            (false, None,    None,    false)  => {
-                // ( )
-                // ( )
-                // Do nothing.
-            },
-            _ => unreachable!("invalid bounds for minus interval"),
-        }
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Splits the tine tree into three sections for an interval-like Tine to
-- 
2.43.0


From 5a9afae46361579644593549a18cdec000cd7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 09/15] fix: intersect interval trees in place by what the tree
 covers at each end

---
 src/tine_tree.rs | 92 ++++++++----------------------------------------
 1 file changed, 15 insertions(+), 77 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index d15e28b..0218d6b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,31 +323,9 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
+        // We need to detect whether the bounds are inside or outside an
+        // existing interval. To do this, we look at the tines outside the
+        // interval.
         let open_before = ts[0]
             .as_ref()
             .is_some_and(Tine::is_lower_bound);
@@ -355,59 +333,19 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-
+        // Merge tines if overlap, or use given ones if they are wrapped by a
+        // surrounding interval.
+        let merged_l = match ts[2].take() {
+            Some(lower) => lower.intersect(&l),
+            None        => open_before.then_some(l),
+        };
+        let merged_u = match ts[3].take() {
+            Some(upper) => upper.intersect(&u),
+            None        => closed_after.then_some(u),
+        };
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 20ae1574a18d1b5b01d785f25c2563bb2d561ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 10/15] fix: intersect interval trees across every pair of
 overlapping intervals

---
 src/tine_tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 0218d6b..c428cbc 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,23 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
+        let mut self_intervals = self.interval_iter();
         let mut other_intervals = other.interval_iter();
-
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
-
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+        let mut self_next = self_intervals.next();
+        let mut other_next = other_intervals.next();
+
+        while let (Some(a), Some(b)) = (&self_next, &other_next) {
+            intersection.union_in_place(&a.intersect(b));
+
+            // The interval that ends first can't overlap anything else.
+            let a_ends_first = match (a.upper_bound(), b.upper_bound()) {
+                (Some(a_ub), Some(b_ub)) => a_ub.least_intersect(&b_ub) == a_ub,
+                _                        => true,
+            };
+            if a_ends_first {
+                self_next = self_intervals.next();
+            } else {
+                other_next = other_intervals.next();
             }
         }
         intersection
-- 
2.43.0


From b4b215a4fda4edc8818f45eeb458e50c7f3a9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 11/15] fix: an empty selection is bounded

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..a6a8bff 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -368,7 +368,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 56d8a6289548caf33d5ab4383bc7cb62754e26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 12/15] fix: keep selections canonical after complement,
 intersect and minus

---
 src/selection.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index a6a8bff..8ee6e0e 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -500,7 +500,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +552,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::canonical(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +595,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::canonical(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +662,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::canonical(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +760,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::canonical(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,9 +847,19 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::canonical(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
+    /// Rebuilds a `Selection` from a `TineTree` whose intervals may contain no
+    /// points of the type, or may not be denormalized.
+    fn canonical(tree: TineTree<T>) -> Self {
+        Self(tree
+            .into_iter()
+            .map(|interval| interval.normalized().denormalized())
+            .collect())
+    }
+
     // Iterator conversions
     ////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 745a41d3c9e7b6df19c2be28f0e315e0039f1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 13/15] fix: closure of a selection stays within its points

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 8ee6e0e..546a95d 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -712,7 +712,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From cc1d016abca139d81dc8981ecfe857de9a7d1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 14/15] fix: union merges intervals that are adjacent after
 normalization

---
 src/interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..7221d3a 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1613,9 +1613,9 @@ impl<T> Interval<T>
     /// # }
     /// ```
     pub fn union(&self, other: &Self) -> impl Iterator<Item=Self> {
-        // TODO: Fix intervals that are adjacent after normalization.
-        self.0
-            .union(&other.0)
+        self.0.clone()
+            .denormalized()
+            .union(&other.0.clone().denormalized())
             .map(Normalize::normalized)
             .map(Interval)
     }
-- 
2.43.0


From a9ecc64b30eb529b8dbc644260ab6fb499705e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 15/15] fix: iterate selection points from both ends
 independently

---
 src/selection.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 546a95d..d52bc59 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -884,7 +884,8 @@ impl<T> Selection<T>
     pub fn iter(&self) -> Iter<'_, T> {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -898,7 +899,8 @@ impl<T> IntoIterator for Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
             intervals: self.0.into_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -912,7 +914,8 @@ impl<'a, T> IntoIterator for &'a Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -1068,7 +1071,8 @@ pub struct IntoIter<T>
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
     /// The current interval.
-    current: crate::interval::Iter<T>,
+    front: crate::interval::Iter<T>,
+    back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1077,20 +1081,20 @@ impl<T> Iterator for IntoIter<T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1098,20 +1102,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
@@ -1130,7 +1134,8 @@ pub struct Iter<'t, T>
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
     /// The current interval.
-    current: crate::interval::Iter<T>,
+    front: crate::interval::Iter<T>,
+    back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1139,20 +1144,20 @@ impl<'t, T> Iterator for Iter<'t, T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1160,20 +1165,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
-- 
2.43.0

