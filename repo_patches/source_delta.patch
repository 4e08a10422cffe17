From 2d08fb7b83fc7d5cd8f2521628f7f388a626d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:01 +0000
Subject: [PATCH 1/7] fix: fifa() gives the winner of a penalty shootout 0.75
 and the loser 0.5, whichever side won

---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 4eddcaddec84f1a68ddd8a7b05ecd07fb2756dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:06 +0000
Subject: [PATCH 2/7] fix: uscf_rating_period keeps the rating floor of 100
 that uscf applies

---
 src/uscf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..7ba6029 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -413,7 +413,8 @@ pub fn uscf_rating_period(
             avg_opponent_rating,
             wins,
             losses,
-        );
+        )
+        .max(100.0);
 
         return USCFRating {
             rating: new_rating,
@@ -435,7 +436,8 @@ pub fn uscf_rating_period(
         score,
         exp_sum,
         *config,
-    );
+    )
+    .max(100.0);
 
     USCFRating {
         rating: new_rating,
-- 
2.43.0


From fc9d226776163e3203619c6da2065b17f961b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:11 +0000
Subject: [PATCH 3/7] fix: egf_rating_period keeps the rating floor of -900
 over several games

---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 0afe305be17dbff4f9d8dac986a2968af8553262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:16 +0000
Subject: [PATCH 4/7] fix: ingo_rating_period returns the player unchanged for
 a period without games instead of NaN

---
 src/ingo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..5b510c5 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,10 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From a51611676cd94ac1626fef498d2184f29cec6876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:25 +0000
Subject: [PATCH 5/7] fix: trueskill_multi_team returns a lone team unchanged
 instead of panicking

---
 src/trueskill/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..4b4b56e 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,14 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // A single team has nobody to be compared to, so nothing changes.
+    if teams_and_ranks.len() < 2 {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From 92dd34a91f866dadbcdfc1ee48ce5d974828f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:01 +0000
Subject: [PATCH 6/7] fix: a weight of zero in trueskill_multi_team leaves the
 player unchanged instead of NaN

---
 src/trueskill/factor_graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..ceb6a37 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,16 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+        if coeff == 0.0 {
+            // This term is not part of the sum, so the sum says nothing about it.
+            return self.terms[index]
+                .borrow_mut()
+                .update_message(self.id, Gaussian::default());
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0


From 4d92fc4a2112eb11b13591646d530afa7375f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:30 +0000
Subject: [PATCH 7/7] fix: match_quality_multi_team panicked for two teams and
 for a lone team

The product of the means and the A matrix was taken in the wrong order,
which only works out for three or more teams, and the inverse of a 1x1
matrix was zero.
---
 src/trueskill/matrix.rs | 5 +++++
 src/trueskill/mod.rs    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..20024f0 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The determinant of the empty matrix is 1, which we need for the inverse of a 1x1 matrix.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 4b4b56e..2f5a5e8 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1158,7 +1158,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0

