From e09486ce9dc91f43e160232fa0cada885fc951f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 01/46] fix: upwind the scalar Larrouturou HLLEM fluxes with
 the right state for negative mass flux

The mass flux times the upwind value is f_rho * Y_R if f_rho <= 0. The
scalar variant used the wrong sign, the array variant has always been right.
---
 src/equations/perfect_gas/HllemMethod.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..ff374cc 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -629,11 +629,11 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +665,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +689,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
-- 
2.43.0


From c53c5185faa5d1c2bff16fded3469a469f614e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 02/46] fix: set the mass and normal momentum flux in the
 scalar three dimensional HLLEM method

They have been left at the values of the previous call.
---
 src/equations/perfect_gas/HllemMethod.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index ff374cc..75a9bb0 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -625,6 +625,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
-- 
2.43.0


From e333610ce3d27511fcdae547c660e972ca3987c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 03/46] fix: use the normal Roe velocity for the normal
 momentum in the three dimensional array HLLEM flux

---
 src/equations/perfect_gas/HllemMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 75a9bb0..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -991,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 66d6192d4ab587895d95f4c5304cd97c15bb5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/46] fix: divide the momentum by the height in the shallow
 water flux

The flux of h u is h u^2 + g h^2 / 2, it has been computed as (h u)^2 + g h^2 / 2.
---
 src/equations/ShallowWater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..c5eeb14 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,7 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity = state.momentum[d] / state.height;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +36,7 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d velocity = state.momentum.row(d) / state.height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From b7f2c2185a8ab4a47a21ba5907901b5bd5bd0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 05/46] fix: return the unmodified state from the Larrouturou
 HLLEM Riemann solver in supersonic flow

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..b4fab5f 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -359,9 +359,9 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   }
 
   if (0.0 < sL) {
-    solution = left_;
+    solution = left;
   } else if (sR < 0.0) {
-    solution = right_;
+    solution = right;
   } else {
     AsCons(solution) = w_hllem_;
     CompleteFromCons(equation_, solution, solution);
-- 
2.43.0


From 2cb08cbf121561dab257567f53e02f2941e41f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 06/46] fix: include the last stencil in the sequential stable
 time step

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..e8a6af8 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
-- 
2.43.0


From 7737de860eaeb4f55b92170e84005a3a7f56a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 07/46] fix: initialise the whole remainder mask of the
 vectorised stable time step

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index e8a6af8..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From d5ab14f4a9e375f505c5b6834b8cf3057c679dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 08/46] fix: do not repeat outputs when a time step is
 restarted from the backup

---
 include/fub/RunSimulation.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..cbe980a 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -180,10 +180,13 @@ void RunSimulation(Solver& solver, RunOptions options,
           backup = solver;
         }
       }
+      // A failed time step is repeated from the backup, for which all outputs
+      // have already been done.
     } while (
-        time_point + eps < options.final_time &&
-        (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        failure_dt ||
+        (time_point + eps < options.final_time &&
+         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
+         !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From 685024cbf75b07150d2b4047730cf6c4c4aabf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 09/46] fix: ignore output frequencies that are not positive

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 7c42cb6..9414e2b 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -70,7 +70,9 @@ public:
     const std::ptrdiff_t cycle = grid.GetCycles();
     if (std::any_of(
             frequencies_.begin(), frequencies_.end(),
-            [cycle](std::ptrdiff_t freq) { return cycle % freq == 0; })) {
+            [cycle](std::ptrdiff_t freq) {
+              return freq > 0 && cycle % freq == 0;
+            })) {
       return true;
     }
     const Duration time_point = grid.GetTimePoint();
-- 
2.43.0


From 65e34d62b60655cf1924f9f208afb968716618da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 10/46] fix: characteristic MUSCL-Hancock methods of several
 dimensions can be linked into one program

---
 .../MusclHancockCharacteristicMethod.hpp           | 14 +++++++-------
 .../MusclHancockCharacteristicMethod.hpp           | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index bbcf324..73ac114 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -26,14 +26,14 @@ namespace fub::ideal_gas {
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
-std::array<int, 3> MakeIndices(Direction dir) {
+inline std::array<int, 3> MakeIndices(Direction dir) {
   const int ix = static_cast<int>(dir);
   const int iy = (ix + 1) % 3;
   const int iz = (iy + 1) % 3;
   return {ix, iy, iz};
 }
 
-BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
+inline BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
                                        const BasicPrimitives& right,
                                        double rhoc, double ooc2, int ix, int iy,
                                        int iz) {
@@ -49,7 +49,7 @@ BasicCharacteristics ComputeAmplitudes(const BasicPrimitives& left,
   return amplitudes;
 }
 
-BasicCharacteristicsArray ComputeAmplitudes(const BasicPrimitivesArray& left,
+inline BasicCharacteristicsArray ComputeAmplitudes(const BasicPrimitivesArray& left,
                                             const BasicPrimitivesArray& right,
                                             Array1d rhoc, Array1d ooc2, int ix,
                                             int iy, int iz) {
@@ -128,7 +128,7 @@ ComputeSlopes(CharacteristicsArray& limited,
 
 // (rhou)_t + (rho u^2 + p)_x = 0
 
-void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
+inline void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
                double ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -142,7 +142,7 @@ void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
   }
 }
 
-void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
+inline void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
                Array1d rhoc, Array1d ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -156,7 +156,7 @@ void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
   }
 }
 
-void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
+inline void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
                 int is_right_side, double lambda, double u, double c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
@@ -171,7 +171,7 @@ void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
   // clang-format on
 }
 
-void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
+inline void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
                 int is_right_side, Array1d lambda, Array1d u, Array1d c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
diff --git a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
index 69e5ca5..080a8e5 100644
--- a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
@@ -26,14 +26,14 @@ namespace fub::perfect_gas {
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
-std::array<int, 3> MakeIndices(Direction dir) {
+inline std::array<int, 3> MakeIndices(Direction dir) {
   const int ix = static_cast<int>(dir);
   const int iy = (ix + 1) % 3;
   const int iz = (iy + 1) % 3;
   return {ix, iy, iz};
 }
 
-Characteristics ComputeAmplitudes(const Primitives& left,
+inline Characteristics ComputeAmplitudes(const Primitives& left,
                                   const Primitives& right, double rhoc,
                                   double ooc2, int ix, int iy, int iz) {
   const double dp = right.pressure - left.pressure;
@@ -48,7 +48,7 @@ Characteristics ComputeAmplitudes(const Primitives& left,
   return amplitudes;
 }
 
-CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
+inline CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
                                        const PrimitivesArray& right,
                                        Array1d rhoc, Array1d ooc2, int ix,
                                        int iy, int iz) {
@@ -64,7 +64,7 @@ CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
   return amplitudes;
 }
 
-void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
+inline void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
                double ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -74,7 +74,7 @@ void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
   diffs.velocity[iz] = q.w;
 }
 
-void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
+inline void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
                Array1d rhoc, Array1d ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -155,7 +155,7 @@ ComputeSlopes(CharacteristicsArray& limited,
   return limited;
 }
 
-void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
+inline void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
                 int is_right_side, double lambda, double u, double c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
@@ -167,7 +167,7 @@ void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
   // clang-format on
 }
 
-void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
+inline void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
                 int is_right_side, Array1d lambda, Array1d u, Array1d c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
-- 
2.43.0


From c68624d595ab40192149610c5e856cf4b774289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 11/46] fix: instantiate the three dimensional MUSCL-Hancock
 method of the perfect gas

---
 src/equations/perfect_gas/MusclHancockMethod_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
index 00a9981..b4a2023 100644
--- a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
+++ b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
@@ -22,7 +22,7 @@
 
 namespace fub {
 
-template struct MusclHancock<PerfectGas<2>>;
+template struct MusclHancock<PerfectGas<3>>;
 template class FluxMethod<MusclHancock<PerfectGas<3>>>;
 
 } // namespace fub
-- 
2.43.0


From 2b4e15296bbfece5193b168c808c4d6bf4ef1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 12/46] fix: return the assigned object from the assignment
 operators of complete states and views

---
 include/fub/State.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/State.hpp b/include/fub/State.hpp
index 12fee35..c0ed9ba 100644
--- a/include/fub/State.hpp
+++ b/include/fub/State.hpp
@@ -350,6 +350,7 @@ template <typename Eq> struct Complete : CompleteBase<Eq> {
   Complete(const CompleteBase<Eq>& x) : CompleteBase<Eq>{x} {}
   Complete& operator=(const CompleteBase<Eq>& x) {
     static_cast<CompleteBase<Eq>&>(*this) = x;
+    return *this;
   }
   Complete(const Equation& eq) : CompleteBase<Eq>{} {
     auto depths = ::fub::Depths(eq, Type<Complete<Equation>>{});
@@ -426,6 +427,7 @@ struct BasicView : ViewBase<S, L, R> {
   BasicView(const ViewBase<S, L, R>& base) : ViewBase<S, L, R>{base} {}
   BasicView& operator=(const ViewBase<S, L, R>& base) {
     static_cast<ViewBase<S, L, R>&>(*this) = base;
+    return *this;
   }
 };
 
-- 
2.43.0


From bfa00ba2fdbc395036e305201fdd851dac46559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 13/46] fix: return the internal energy of a mixture by value,
 not as an expression of dead temporaries

---
 include/fub/equations/PerfectGasMix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..f5d10ab 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -371,7 +371,7 @@ private:
 
   template <typename Density, typename Momentum, typename Energy,
             typename Species, typename PassiveScalars>
-  friend auto
+  friend Density
   tag_invoke(tag_t<euler::InternalEnergy>, const PerfectGasMix& eq,
              const PerfectGasMixConservative<Density, Momentum, Energy, Species,
                                              PassiveScalars>& q) noexcept {
-- 
2.43.0


From 5fff318f22e5b17340001ccc571cd60ca5d5d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 14/46] fix: keep the mass fractions when the pressure of a
 mixture changes isentropically

---
 include/fub/equations/PerfectGasMix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f5d10ab..5d13d06 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -633,8 +633,10 @@ private:
     q.density = rho_new;
     q.momentum = rhou_new;
     q.energy = rhoE_new;
-    q.species = q0.species;
-    q.passive_scalars = q0.passive_scalars;
+    // the composition does not change, the density does
+    const double rho_ratio = rho_new / rho_old;
+    q.species = rho_ratio * q0.species;
+    q.passive_scalars = rho_ratio * q0.passive_scalars;
     q.pressure = p_new;
     q.speed_of_sound = std::sqrt(eq.gamma * p_new / rho_new);
   }
-- 
2.43.0


From 05cc7a81236ace15f8281a861c91321136630cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 15/46] fix: do not count the kinetic energy of an isentropic
 expansion twice

---
 include/fub/equations/EulerEquation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/equations/EulerEquation.hpp b/include/fub/equations/EulerEquation.hpp
index 8ffbc7a..7c2795d 100644
--- a/include/fub/equations/EulerEquation.hpp
+++ b/include/fub/equations/EulerEquation.hpp
@@ -312,6 +312,8 @@ inline constexpr struct IsentropicExpansionWithoutDissipationFn {
       dest.energy = src.energy - rhoE_kin;
       const double h_before = (dest.energy + dest.pressure) / dest.density;
       SetIsentropicPressure(eq, dest, dest, pressure_dest);
+      // the kinetic energy gained is determined by the enthalpy difference below
+      dest.energy = dest.energy - KineticEnergy(dest.density, dest.momentum);
       const double h_after = (dest.energy + dest.pressure) / dest.density;
       const double h_diff = h_before - h_after;
       const double e_kin_new = 2.0 * efficiency * std::abs(h_diff) +
-- 
2.43.0


From d1cdf9e05f9b58b82b2607e008001c4582d5d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 16/46] fix: assign the array state of a reactor, too

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ce97221..7a5f6d3 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -362,6 +362,7 @@ FlameMasterReactor& FlameMasterReactor::
 operator=(FlameMasterReactor&& other) noexcept {
   mechanism_ = std::move(other.mechanism_);
   state_ = std::move(other.state_);
+  array_state_ = std::move(other.array_state_);
   ode_solver_ = std::move(other.ode_solver_);
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
-- 
2.43.0


From d9c2dd981ea85a9950db84a46932e32c30200fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 17/46] fix: drop negative mass fractions in the array version
 like everywhere else

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 7a5f6d3..d7d6926 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -878,7 +878,7 @@ void FlameMasterReactor::SetMassFractionsArray(
     const ArrayXd& newMassFractions) {
   Array1d sum = Array1d::Zero();
   for (int i = 0; i < array_state_.massFractions.rows(); ++i) {
-    array_state_.massFractions.row(i) = newMassFractions.row(i).abs();
+    array_state_.massFractions.row(i) = newMassFractions.row(i).max(0.0);
     sum += array_state_.massFractions.row(i);
   }
   sum = (sum > 0.0).select(sum, 1.0);
-- 
2.43.0


From 780ad5b9b85ded9d02c48896b45496a32ceaef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 18/46] fix: compute production rates from the current density

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index d7d6926..e0a6e7a 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -922,6 +922,7 @@ span<const double> FlameMasterReactor::GetReactionRates() const {
 }
 
 span<const double> FlameMasterReactor::GetProductionRates() {
+  UpdateMolesFromMassFractions(state_);
   mechanism_->ComputeProductionRates(state_.production_rates,          // cdot
                                      state_.reaction_rates,            // w
                                      state_.rate_coefficients,         // k
-- 
2.43.0


From 0bfbfe74397f8486b830b08f1f47a1aa5125da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 19/46] fix: update the thermodynamic state of a reactor after
 advancing it

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index e0a6e7a..881ba1a 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -412,6 +412,7 @@ void FlameMasterReactor::Advance(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 void FlameMasterReactor::Advance(
@@ -432,6 +433,7 @@ void FlameMasterReactor::Advance(
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 struct AdvanceAndFindMaxdTData {
@@ -465,6 +467,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
   return data.argmaxdT;
 }
 
-- 
2.43.0


From 37d6bdcdda7e4f4e7f1f20ebac0b8a0bbd9ffc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 20/46] fix: find the largest temperature slope between
 consecutive time steps

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 881ba1a..586217a 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -452,12 +452,15 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
       const double dT =
           (data->oldTemperature - newTemperature) / (data->oldTime - t);
       data->oldTime = t;
+      data->oldTemperature = newTemperature;
       if (data->maxdT < dT) {
         data->maxdT = dT;
         data->argmaxdT = t;
       }
     }
   };
+  UpdateMolesFromMassFractions(state_);
+
   AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
 
   // Do the actual computation
-- 
2.43.0


From 8243f450817d77213c75bf0d4310901cce3b04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 21/46] fix: initialise all array mass fractions of a reactor

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 586217a..9655267 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -293,7 +293,7 @@ FlameMasterReactor::FlameMasterReactor(const FlameMasterMechanism& mechanism)
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
 
-  array_state_.massFractions.resize(state_.nSpecies, kDefaultChunkSize);
+  array_state_.massFractions.setZero(state_.nSpecies, kDefaultChunkSize);
   array_state_.moles.resize(state_.nSpecies, kDefaultChunkSize);
   array_state_.molesStorage.resize(state_.nSpeciesEffective + 1,
                                    kDefaultChunkSize);
-- 
2.43.0


From e66985bc8edabbcd64154d432b9429597769fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 22/46] fix: keep the parameters of a Radau solver when it is
 cloned

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From 183853a26073ae408f46d7af7c1e4ae267f44df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 23/46] fix: repeat a failed Radau integration in two halves of
 the interval

---
 src/ode_solver/RadauSolver.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..46088a4 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -22,7 +22,9 @@
 
 #include "fub/ode_solver/OdeSolverFactory.hpp"
 
+#include <algorithm>
 #include <string>
+#include <vector>
 
 namespace fub {
 namespace {
@@ -182,6 +184,7 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_.resize(GetIWorkSpaceSize(y0.size()));
 
   const double t = t0 + dt; // final fime
+  const std::vector<double> initial_y(y0.begin(), y0.end());
 
   iwork_space_[0] = 1; // Use Hessenberg matrix form
   // iwork[1] = 10000; // Increase maximum number of steps
@@ -217,11 +220,14 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     throw radau_error::InputIsNotConsistent{};
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
-  case -3:
-    idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                      t0,                     // Initial time
-                      t / 2,                  // Final integration time
+  case -3: {
+    // Start again and try to do two half steps
+    std::copy(initial_y.begin(), initial_y.end(), y0.begin());
+    const double t_half = t0 + 0.5 * dt;
+    idid = call_radau(radau_rhs,                          // RHS function
+                      reinterpret_cast<int*>(&user_data), // IPAR
+                      t0,                                 // Initial time
+                      t_half,                 // Final integration time
                       y0,                     // Initial y array and output
                       initial_time_step_size, // Initial step size
                       relative_tolerance,     // Tolerances
@@ -231,10 +237,10 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
                       feedback ? radau_feedback : sol_t{nullptr},
                       jacobian ? radau_jacobian : jac_t{nullptr});
     if (idid > 0) {
-      idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
+      idid = call_radau(radau_rhs,                          // RHS function
+                        reinterpret_cast<int*>(&user_data), // IPAR
+                        t_half,                             // Initial time
+                        t,                      // Final integration time
                         y0,                     // Initial y array and output
                         initial_time_step_size, // Initial step size
                         relative_tolerance,     // Tolerances
@@ -248,6 +254,7 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
       }
     }
     throw radau_error::StepSizeBecomesTooSmall{};
+  }
   case -4:
     throw radau_error::MatrixIsRepeatedlySingular{};
   case -42:
-- 
2.43.0


From daaa6cc9fd5ac153a66676625743ae7a94d1eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 24/46] fix: use the full Roe speed of sound in scalar and
 masked ideal gas mixture signal speeds

The scalar and the masked Einfeldt signal velocities of IdealGasMix took only
half of the Roe averaged speed of sound, the array version took all of it. The
numerical flux and the stable time step of a face depended on which version
happened to evaluate it.
---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From a1a2b5e47a3570d812cf6e62c5892d184a37d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 25/46] fix: advance the characteristic reconstruction of ideal
 gas mixtures by half a time step

DoTimeStep already contains the factor one half of the predictor and expects
dt / dx, as in the perfect gas version of this method. It was called with
dt / (2 dx), such that the reconstructed states belonged to a quarter of the
time step.
---
 .../MusclHancockCharacteristicMethod.hpp             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index 73ac114..724ede8 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -279,14 +279,14 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
     Direction dir) {
-  const double dt_over_dx_half = 0.5 * dt.count() / dx;
+  const double dt_over_dx = dt.count() / dx;
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_[0], diffs_, amplitudes_, slopes_, left_side,
-              equation_, stencil.template first<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template first<3>(), dt_over_dx, limiter_,
               dir);
   Reconstruct(reconstruction_[1], diffs_, amplitudes_, slopes_, right_side,
-              equation_, stencil.template last<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template last<3>(), dt_over_dx, limiter_,
               dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_, dt, dx, dir);
 }
@@ -295,15 +295,15 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, span<const CompleteArray, 4> stencil, Duration dt,
     double dx, Direction dir) {
-  const Array1d dt_over_dx_half = Array1d::Constant(0.5 * dt.count() / dx);
+  const Array1d dt_over_dx = Array1d::Constant(dt.count() / dx);
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_array_[0], diffs_array_, amplitudes_array_,
               slopes_array_, left_side, equation_, stencil.template first<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   Reconstruct(reconstruction_array_[1], diffs_array_, amplitudes_array_,
               slopes_array_, right_side, equation_, stencil.template last<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_array_, dt, dx, dir);
 }
 
-- 
2.43.0


From b618ef1933e8013f1e83290537912c98e51046e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 26/46] fix: loop over the species only in the array version of
 the characteristic reconstruction

size() counts all lanes of all species; the loop read and wrote beyond the
last species.
---
 .../ideal_gas_mix/MusclHancockCharacteristicMethod.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index 724ede8..d8a6bbc 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -269,7 +269,7 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
     diffs.velocity.row(d) += (q.momentum.row(d) / q.density);
   }
   diffs.pressure += q.pressure;
-  for (int s = 0; s < q.species.size(); ++s) {
+  for (int s = 0; s < q.species.rows(); ++s) {
     diffs.species.row(s) += (q.species.row(s) / q.density);
   }
   CompleteFromPrim(eq, rec, diffs);
-- 
2.43.0


From a7ace12f093f171be9d28e6ddf8a5508fe7a694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 27/46] fix: sign of the temperature reconstruction on the
 right hand side of a face

The array and masked versions of the primitive MUSCL-Hancock method subtracted
the slope and time derivative of the temperature with the wrong sign: the
temperature of the right state was extrapolated away from the face and
backwards in time.
---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 2dcaf63..02ead9c 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -441,7 +441,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
@@ -514,7 +514,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
-- 
2.43.0


From d629595951291772ea1033a6b8c584b26765b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 28/46] fix: zero flux of the primitive MUSCL-Hancock methods
 if all faces are covered

The masked versions returned without setting the flux when no face of the
chunk was open; the caller then stored the fluxes of another chunk.
---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 1 +
 src/equations/perfect_gas/MusclHancockPrimMethod.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 02ead9c..1f06228 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -461,6 +461,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
     Direction dir) {
   MaskArray mask = face_fractions > 0.0;
   if (!mask.any()) {
+    ForEachComponent([](auto&& f) { f = Array1d::Zero(); }, flux);
     return;
   }
 
diff --git a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
index 216d111..1edbb59 100644
--- a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
@@ -189,6 +189,7 @@ void MusclHancockPrim<Dim>::ComputeNumericFlux(
     Direction dir) {
   MaskArray mask = face_fractions > 0.0;
   if (!mask.any()) {
+    ForEachComponent([](auto&& f) { f = Array1d::Zero(); }, flux);
     return;
   }
   auto limiter = [](Array1d qL, Array1d qM, Array1d qR) -> Array1d {
-- 
2.43.0


From 5de1bed5d5f590382df4cef462a9e2529f7f78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 29/46] fix: use the limiter of the array version in the scalar
 primitive MUSCL-Hancock method

The scalar version limited every variable, and every mass fraction on its own,
with minmod. Sequential and SIMD sweeps gave different fluxes, and the limited
slopes of the mass fractions did not sum up to zero.
---
 .../ideal_gas_mix/MusclHancockPrimMethod.hpp  | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 1f06228..7fb7830 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -243,23 +243,32 @@ void PrimDerivatives(IdealGasMix<Rank>& eq, PrimitiveArray<Rank>& dt,
 template <int Rank>
 void ApplyLimiter(Primitive<Rank>& dpdx, const Primitive<Rank>& pL,
                   const Primitive<Rank>& pM, const Primitive<Rank>& pR) {
-  auto Limiter = [](double& q, double qL, double qM, double qR) {
-    const double sL = qM - qL;
-    const double sR = qR - qM;
-    if (sR > 0) {
-      q = std::max(0.0, std::min(sL, sR));
-    } else {
-      q = std::min(0.0, std::max(sL, sR));
+  auto dqdx = [](double qL, double qR) { return 0.5 * (qR - qL); };
+  auto Limiter = [](double qL, double qM, double qR) {
+    const double delta_q = 0.5 * (qR - qL);
+    if (!(std::abs(delta_q) > 1e-12)) {
+      return 0.0;
     }
+    const double rL = (qM - qL) / delta_q;
+    const double rR = (qR - qM) / delta_q;
+    const double r = (rL > 0.0 && rR > 0.0) ? std::min(rL, rR) : 0.0;
+    return r < 1.0 ? 2 * r / (1.0 + r) : 0.5 * (r + 1.0);
   };
-  Limiter(dpdx.pressure, pL.pressure, pM.pressure, pR.pressure);
-  Limiter(dpdx.temperature, pL.temperature, pM.temperature, pR.temperature);
+  dpdx.pressure = Limiter(pL.pressure, pM.pressure, pR.pressure) *
+                  dqdx(pL.pressure, pR.pressure);
+  dpdx.temperature = Limiter(pL.temperature, pM.temperature, pR.temperature) *
+                     dqdx(pL.temperature, pR.temperature);
   for (int i = 0; i < Rank; ++i) {
-    Limiter(dpdx.velocity[i], pL.velocity[i], pM.velocity[i], pR.velocity[i]);
+    dpdx.velocity[i] =
+        Limiter(pL.velocity[i], pM.velocity[i], pR.velocity[i]) *
+        dqdx(pL.velocity[i], pR.velocity[i]);
   }
+  // all species share one limiter such that their slopes sum up to zero
+  const double limiter_Y = Limiter(pL.mass_fractions[0], pM.mass_fractions[0],
+                                   pR.mass_fractions[0]);
   for (int i = 0; i < dpdx.mass_fractions.rows(); ++i) {
-    Limiter(dpdx.mass_fractions[i], pL.mass_fractions[i], pM.mass_fractions[i],
-            pR.mass_fractions[i]);
+    dpdx.mass_fractions[i] =
+        limiter_Y * dqdx(pL.mass_fractions[i], pR.mass_fractions[i]);
   }
 }
 
-- 
2.43.0


From 0bb4d572dcafe92f264e49a85702da83005a985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 30/46] fix: switch off slopes next to covered cells in the
 masked characteristic method of ideal gas mixtures

---
 .../MusclHancockCharacteristicMethod.hpp         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index d8a6bbc..1b96066 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -311,9 +311,21 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, Array1d face_fractions,
     span<const CompleteArray, 4> stencil,
-    span<const Array1d, 4> /* volume_fractions */, Duration dt, double dx,
+    span<const Array1d, 4> volume_fractions, Duration dt, double dx,
     Direction dir) {
-  ComputeNumericFlux(flux, stencil, dt, dx, dir);
+  // Covered cells have no state. We repeat the state of their inner neighbor,
+  // which switches off the slope of that neighbor.
+  std::array<CompleteArray, 4> cells{stencil[0], stencil[1], stencil[2],
+                                     stencil[3]};
+  const MaskArray has_left = volume_fractions[0] > 0.0;
+  const MaskArray has_right = volume_fractions[3] > 0.0;
+  ForEachComponent(
+      [&](auto&& left, auto&& inner_left, auto&& inner_right, auto&& right) {
+        left = has_left.select(left, inner_left);
+        right = has_right.select(right, inner_right);
+      },
+      cells[0], cells[1], cells[2], cells[3]);
+  ComputeNumericFlux(flux, cells, dt, dx, dir);
   MaskArray mask = (face_fractions > 0.0);
   ForEachComponent([&mask](auto&& flux) { flux = mask.select(flux, 0.0); },
                    flux);
-- 
2.43.0


From 623cd0f520400f5c88eb239a5ca0d8081f3aa1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 31/46] fix: tag buffer surrounds every tagged cell on both
 sides, in 1d and 3d too

In one dimension overlapping buffers toggled tags off, skipped the left
neighbour and wrote before the first cell. In three dimensions all cells
were tagged and tags close to the boundary of the box were ignored. The
buffer in two dimensions missed the upper most cell in each direction.
---
 src/tagging_method/TagBuffer.cpp | 47 ++++++++++++++++----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index f3123f1..b204de4 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -26,14 +26,14 @@ namespace fub {
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 1, layout_stride>& tags) {
-  span<char> data = tags.Span();
-  for (std::ptrdiff_t i = buffer_width_; i < data.size() - buffer_width_; ++i) {
-    if (data[i] == '\1') {
-      for (std::ptrdiff_t j = 0; j < buffer_width_; ++j) {
-        data[i + j] = static_cast<char>('\2' - data[i + j]);
-      }
-      for (std::ptrdiff_t j = buffer_width_; j > 0; --j) {
-        data[i - j - 1] = static_cast<char>('\2' - data[i - j - 1]);
+  mdspan<char, 1, layout_stride> data = tags.MdSpan();
+  const std::ptrdiff_t nx = data.extent(0);
+  for (std::ptrdiff_t i = 0; i < nx; ++i) {
+    if (data(i) == '\1' || data(i) == '\2') {
+      const std::ptrdiff_t k0 = std::max(i - buffer_width_, std::ptrdiff_t{0});
+      const std::ptrdiff_t k1 = std::min(i + buffer_width_ + 1, nx);
+      for (std::ptrdiff_t k = k0; k < k1; ++k) {
+        data(k) = std::max(data(k), static_cast<char>('\3' - data(k)));
       }
     }
   }
@@ -49,10 +49,10 @@ void TagBuffer::TagCellsForRefinement(
       if (data(i, j) == '\1' || data(i, j) == '\2') {
         const std::ptrdiff_t k0 =
             std::max(i - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t k1 = std::min(i + buffer_width_, nx);
+        const std::ptrdiff_t k1 = std::min(i + buffer_width_ + 1, nx);
         const std::ptrdiff_t l0 =
             std::max(j - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t l1 = std::min(j + buffer_width_, ny);
+        const std::ptrdiff_t l1 = std::min(j + buffer_width_ + 1, ny);
         for (std::ptrdiff_t l = l0; l < l1; ++l) {
           for (std::ptrdiff_t k = k0; k < k1; ++k) {
             data(k, l) =
@@ -66,22 +66,21 @@ void TagBuffer::TagCellsForRefinement(
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 3, layout_stride>& tags) {
-  const std::array<std::ptrdiff_t, 2> shift{buffer_width_, buffer_width_};
-  const Direction X = Direction::X;
-  const Direction Y = Direction::Y;
-  const Direction Z = Direction::Z;
-  IndexBox<3> box =
-      Shrink(Shrink(Shrink(tags.Box(), X, shift), Y, shift), Z, shift);
+  const IndexBox<3> box = tags.Box();
   ForEachIndex(box, [&](std::ptrdiff_t i0, std::ptrdiff_t j0,
                         std::ptrdiff_t k0) {
-    Index<3> lower{i0 - buffer_width_, j0 - buffer_width_, k0 - buffer_width_};
-    Index<3> upper{i0 + buffer_width_, j0 + buffer_width_, k0 + buffer_width_};
-    IndexBox<3> neighborhood{lower, upper};
-    ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
-                                   std::ptrdiff_t k) {
-      tags(i, j, k) =
-          std::max(tags(i, j, k), static_cast<char>('\2' - tags(i, j, k)));
-    });
+    if (tags(i0, j0, k0) == '\1' || tags(i0, j0, k0) == '\2') {
+      Index<3> lower{i0 - buffer_width_, j0 - buffer_width_,
+                     k0 - buffer_width_};
+      Index<3> upper{i0 + buffer_width_ + 1, j0 + buffer_width_ + 1,
+                     k0 + buffer_width_ + 1};
+      IndexBox<3> neighborhood = Intersect(box, IndexBox<3>{lower, upper});
+      ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
+                                     std::ptrdiff_t k) {
+        tags(i, j, k) =
+            std::max(tags(i, j, k), static_cast<char>('\3' - tags(i, j, k)));
+      });
+    }
   });
 }
 
-- 
2.43.0


From e7d8d4cac2c1c94eff6bd08d9083663d92c573bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 32/46] fix: row based gradient detector compares neighboring
 cells in every chunk

Only the first chunk of a row was compared with its actual neighbors. The
left and middle states of later chunks and of the remainder were taken from
wrong cells.
---
 include/fub/tagging_method/GradientDetector.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 344045d..20dc97e 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -255,14 +255,10 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     ViewPointer<const Complete<Equation>> pR = Begin(rR);
     ViewPointer<const Complete<Equation>> pEnd = End(rR);
     int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    if (n >= kDefaultChunkSize) {
-      Load(sM_, pL);
-      Load(sR_, pM);
-    }
     const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
     while (n >= kDefaultChunkSize) {
-      sL_ = sM_;
-      sM_ = sR_;
+      Load(sL_, pL);
+      Load(sM_, pM);
       Load(sR_, pR);
       Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
@@ -276,6 +272,8 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         tags_array = (right < tolerance).select(tags_array, ones);
       });
       Array<char, 1>::Map(tags_pointer) = tags_array;
+      Advance(pL, kDefaultChunkSize);
+      Advance(pM, kDefaultChunkSize);
       Advance(pR, kDefaultChunkSize);
       tags_pointer += kDefaultChunkSize;
       n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-- 
2.43.0


From 36eef6fb415aac8c4eda9a3cc2d680489dd0d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 33/46] fix: row based gradient detector considers all
 directions and ignores equal cells

Only differences along the first direction were considered, and cells in a
region where the quantity vanishes were tagged since the comparison of the
relative difference 0/0 with the tolerance is always false.
---
 .../fub/tagging_method/GradientDetector.hpp   | 96 ++++++++++---------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 20dc97e..47cf588 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -240,27 +240,52 @@ template <typename Equation, typename... Projections>
 void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     const PatchDataView<char, Rank, layout_stride>& tags,
     const View<const Complete<Equation>>& states) {
-  Direction dir = Direction::X;
-  BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
-  std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
-                   Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
-  FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
-  ForEachRow(views, [&](span<char> tags_row,
-                        const Row<const Complete<Equation>>& rL,
-                        const Row<const Complete<Equation>>& rM,
-                        const Row<const Complete<Equation>>& rR) {
-    char* tags_pointer = tags_row.begin();
-    ViewPointer<const Complete<Equation>> pL = Begin(rL);
-    ViewPointer<const Complete<Equation>> pM = Begin(rM);
-    ViewPointer<const Complete<Equation>> pR = Begin(rR);
-    ViewPointer<const Complete<Equation>> pEnd = End(rR);
-    int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
-    while (n >= kDefaultChunkSize) {
-      Load(sL_, pL);
-      Load(sM_, pM);
-      Load(sR_, pR);
-      Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+  for (int d = 0; d < Rank; ++d) {
+    const Direction dir = Direction(d);
+    const IndexBox<Rank> box =
+        Intersect(tags.Box(), Shrink(Box<0>(states), dir, {1, 1}));
+    BasicView shifted = Subview(states, Grow(box, dir, {1, 1}));
+    std::tuple views{tags.Subview(box), Shrink(shifted, dir, {0, 2}),
+                     Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
+    FUB_ASSERT(Box<0>(std::get<2>(views)) == box);
+    ForEachRow(views, [&](span<char> tags_row,
+                          const Row<const Complete<Equation>>& rL,
+                          const Row<const Complete<Equation>>& rM,
+                          const Row<const Complete<Equation>>& rR) {
+      char* tags_pointer = tags_row.begin();
+      ViewPointer<const Complete<Equation>> pL = Begin(rL);
+      ViewPointer<const Complete<Equation>> pM = Begin(rM);
+      ViewPointer<const Complete<Equation>> pR = Begin(rR);
+      ViewPointer<const Complete<Equation>> pEnd = End(rR);
+      int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
+      while (n >= kDefaultChunkSize) {
+        Load(sL_, pL);
+        Load(sM_, pM);
+        Load(sR_, pR);
+        Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+        boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
+          auto&& [proj, tolerance] = condition;
+          const Array1d xL = std::invoke(proj, sL_);
+          const Array1d xM = std::invoke(proj, sM_);
+          const Array1d xR = std::invoke(proj, sR_);
+          const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
+          const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
+          tags_array = (left > tolerance).select(ones, tags_array);
+          tags_array = (right > tolerance).select(ones, tags_array);
+        });
+        Array<char, 1>::Map(tags_pointer) = tags_array;
+        Advance(pL, kDefaultChunkSize);
+        Advance(pM, kDefaultChunkSize);
+        Advance(pR, kDefaultChunkSize);
+        tags_pointer += kDefaultChunkSize;
+        n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      }
+      LoadN(sL_, pL, n);
+      LoadN(sM_, pM, n);
+      LoadN(sR_, pR, n);
+      Array<char, 1> tags_array = Array<char, 1>::Zero();
+      LoadN(tags_array, tags_pointer, n);
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
         auto&& [proj, tolerance] = condition;
         const Array1d xL = std::invoke(proj, sL_);
@@ -268,33 +293,12 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         const Array1d xR = std::invoke(proj, sR_);
         const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
         const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-        tags_array = (left < tolerance).select(tags_array, ones);
-        tags_array = (right < tolerance).select(tags_array, ones);
+        tags_array = (left > tolerance).select(ones, tags_array);
+        tags_array = (right > tolerance).select(ones, tags_array);
       });
-      Array<char, 1>::Map(tags_pointer) = tags_array;
-      Advance(pL, kDefaultChunkSize);
-      Advance(pM, kDefaultChunkSize);
-      Advance(pR, kDefaultChunkSize);
-      tags_pointer += kDefaultChunkSize;
-      n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    }
-    LoadN(sL_, pL, n);
-    LoadN(sM_, pM, n);
-    LoadN(sR_, pR, n);
-    Array<char, 1> tags_array = Array<char, 1>::Zero();
-    LoadN(tags_array, tags_pointer, n);
-    boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-      auto&& [proj, tolerance] = condition;
-      const Array1d xL = std::invoke(proj, sL_);
-      const Array1d xM = std::invoke(proj, sM_);
-      const Array1d xR = std::invoke(proj, sR_);
-      const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-      const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left < tolerance).select(tags_array, ones);
-      tags_array = (right < tolerance).select(tags_array, ones);
+      StoreN(tags_pointer, tags_array, n);
     });
-    StoreN(tags_pointer, tags_array, n);
-  });
+  }
 }
 
 } // namespace fub
-- 
2.43.0


From 8db1ba4bf254838a2d1a4a671d9425cacbb03601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 34/46] fix: distance to a cone is measured to the closest
 point of its surface

Points below the base measured the distance to the center of the base
instead of its rim, the axial distance was counted twice next to the rim
and points beyond the tip ignored that the lateral face may be closer.
---
 src/geometry/Cone.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geometry/Cone.cpp b/src/geometry/Cone.cpp
index 30b2abf..81425f8 100644
--- a/src/geometry/Cone.cpp
+++ b/src/geometry/Cone.cpp
@@ -56,13 +56,10 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
     if (r < base_radius_) {
       return sign * -l;
     }
-    return sign * std::sqrt(l * l + (x0 - (p - l * normal)).squaredNorm());
+    return sign * std::sqrt(l * l + (r - base_radius_) * (r - base_radius_));
   }
 
   Eigen::Vector3d apex = x0 + height_ * normal;
-  if (height_ < l) {
-    return sign * (p - apex).norm();
-  }
 
   const Eigen::Vector3d rim_point = [&]() -> Eigen::Vector3d {
     if (dp_radial.norm() > std::sqrt(std::numeric_limits<double>::epsilon())) {
@@ -75,7 +72,11 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
   const double distance_on_face = face_tangential.dot(p - rim_point);
 
   if (distance_on_face < 0.0) {
-    return sign * std::sqrt(l * l + (p - rim_point).squaredNorm());
+    return sign * (p - rim_point).norm();
+  }
+
+  if ((apex - rim_point).norm() < distance_on_face) {
+    return sign * (p - apex).norm();
   }
 
   Eigen::Vector3d p_on_face = rim_point + distance_on_face * face_tangential;
-- 
2.43.0


From 1e9764ba56cc9c764288478487d8ca6036bbd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 35/46] fix: copying an empty AnyInitialData does not
 dereference a null pointer

---
 include/fub/AnyInitialData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/AnyInitialData.hpp b/include/fub/AnyInitialData.hpp
index 40e43cd..9a754f1 100644
--- a/include/fub/AnyInitialData.hpp
+++ b/include/fub/AnyInitialData.hpp
@@ -134,7 +134,8 @@ AnyInitialData<GriddingAlgorithm>::AnyInitialData(T&& initial_data)
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>::AnyInitialData(const AnyInitialData& other)
-    : initial_data_(other.initial_data_->Clone()) {}
+    : initial_data_(other.initial_data_ ? other.initial_data_->Clone()
+                                        : nullptr) {}
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>&
-- 
2.43.0


From 7c4a03f7d7aac652e8bd2cd06b8c1b4044d8f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 36/46] fix: assigning to a running timer submits its
 measurement

The measurement of the target was dropped, and a self assignment stopped
the timer without a submit.
---
 src/counter/Timer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/counter/Timer.cpp b/src/counter/Timer.cpp
index 3735b86..1629a87 100644
--- a/src/counter/Timer.cpp
+++ b/src/counter/Timer.cpp
@@ -34,6 +34,13 @@ Timer::Timer(Timer&& other) noexcept
                                std::chrono::steady_clock::time_point())) {}
 
 Timer& Timer::operator=(Timer&& other) noexcept {
+  if (this == &other) {
+    return *this;
+  }
+  if (counter_) {
+    this->stop();
+    this->submit();
+  }
   counter_ = std::exchange(other.counter_, nullptr);
   start_time_ =
       std::exchange(other.start_time_, std::chrono::steady_clock::time_point());
-- 
2.43.0


From 5f32c716eae142943dae14cd82d2d4b14af3f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 37/46] fix: define FluxMethod::Base()

---
 include/fub/flux_method/FluxMethod.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 51ab877..428f895 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -197,6 +197,16 @@ FluxMethod<BaseMethod>::FluxMethod(Args&&... args)
   stencil_array_.fill(CompleteArray{BaseMethod::GetEquation()});
 }
 
+template <typename BaseMethod>
+const BaseMethod& FluxMethod<BaseMethod>::Base() const noexcept {
+  return *this;
+}
+
+template <typename BaseMethod>
+BaseMethod& FluxMethod<BaseMethod>::Base() noexcept {
+  return *this;
+}
+
 template <typename BaseMethod>
 void FluxMethod<BaseMethod>::ComputeNumericFluxes(
     execution::SequentialTag, const View<Conservative>& fluxes,
-- 
2.43.0


From 574350cb4627ecf5a208b7a91836391192d7a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 38/46] fix: instantiate the two dimensional HLLE flux method
 of perfect gases

---
 src/equations/perfect_gas/HllemMethod_2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/perfect_gas/HllemMethod_2d.cpp b/src/equations/perfect_gas/HllemMethod_2d.cpp
index 794ac56..80241a9 100644
--- a/src/equations/perfect_gas/HllemMethod_2d.cpp
+++ b/src/equations/perfect_gas/HllemMethod_2d.cpp
@@ -30,5 +30,6 @@ template struct Hllem<PerfectGas<2>, false>;
 namespace fub {
 
 template class FluxMethod<perfect_gas::Hllem<PerfectGas<2>>>;
+template class FluxMethod<perfect_gas::Hllem<PerfectGas<2>, false>>;
 
 }
\ No newline at end of file
-- 
2.43.0


From 556a26e5a14797d01647f8a0525df4697c0a5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 39/46] fix: instantiate the three dimensional HLLEM method of
 perfect gas mixtures

---
 CMakeLists.txt                                |  1 +
 .../perfect_gas_mix/HllemMethod_3d.cpp        | 37 +++++++++++++++++++
 2 files changed, 38 insertions(+)
 create mode 100644 src/equations/perfect_gas_mix/HllemMethod_3d.cpp

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 1003fe1..025d48c 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -330,6 +330,7 @@ add_library(FiniteVolumeSolver.Solver
   src/equations/PerfectGasMix.cpp
   src/equations/perfect_gas_mix/HllemMethod_1d.cpp
   src/equations/perfect_gas_mix/HllemMethod_2d.cpp
+  src/equations/perfect_gas_mix/HllemMethod_3d.cpp
   src/equations/perfect_gas_mix/EinfeldtSignalVelocities_1d.cpp
   src/equations/perfect_gas_mix/EinfeldtSignalVelocities_2d.cpp
   src/equations/perfect_gas_mix/EinfeldtSignalVelocities_3d.cpp
diff --git a/src/equations/perfect_gas_mix/HllemMethod_3d.cpp b/src/equations/perfect_gas_mix/HllemMethod_3d.cpp
new file mode 100644
index 0000000..42d1ea6
--- /dev/null
+++ b/src/equations/perfect_gas_mix/HllemMethod_3d.cpp
@@ -0,0 +1,37 @@
+// Copyright (c) 2020 Maikel Nadolski
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
+
+#include "src/equations/perfect_gas/HllemMethod.hpp"
+
+namespace fub::perfect_gas {
+
+template struct Hllem<PerfectGasMix<3>>;
+template struct Hllem<PerfectGasMix<3>, false>;
+
+}
+
+namespace fub {
+
+template class FluxMethod<perfect_gas::Hllem<PerfectGasMix<3>>>;
+template class FluxMethod<perfect_gas::Hllem<PerfectGasMix<3>, false>>;
+
+}
-- 
2.43.0


From 1883a4026e48e6be953448ef777002a12f8263a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 40/46] fix: declare ParsePythonScript as it is defined

---
 include/fub/ext/ProgramOptions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/ext/ProgramOptions.hpp b/include/fub/ext/ProgramOptions.hpp
index c854853..b039be4 100644
--- a/include/fub/ext/ProgramOptions.hpp
+++ b/include/fub/ext/ProgramOptions.hpp
@@ -42,7 +42,8 @@ namespace fub {
 using ProgramOptions = std::map<std::string, pybind11::object>;
 
 ProgramOptions ParsePythonScript(const boost::filesystem::path& path,
-                                 MPI_Comm comm);
+                                 MPI_Comm comm,
+                                 const std::vector<std::string>& args = {});
 
 ProgramOptions ToMap(const pybind11::dict& dict);
 
-- 
2.43.0


From ef3c648c35b63ad631f4a0cabdc77eb5d2257f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 41/46] fix: define Log(message, timepoint, level)

---
 src/ext/Log.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ext/Log.cpp b/src/ext/Log.cpp
index 4a35082..d6e5621 100644
--- a/src/ext/Log.cpp
+++ b/src/ext/Log.cpp
@@ -82,6 +82,13 @@ void FormatLogs_(const boost::log::record_view& rec,
 }
 } // namespace
 
+void Log(std::string message, Duration timepoint,
+         boost::log::trivial::severity_level level) {
+  SeverityLogger log = GetLogger(level);
+  BOOST_LOG_SCOPED_LOGGER_TAG(log, "Time", timepoint.count());
+  BOOST_LOG(log) << message;
+}
+
 void InitializeLogging(MPI_Comm comm, const LogOptions& options) {
   boost::log::core::get()->add_global_attribute(
       "TimeStamp", boost::log::attributes::local_clock());
-- 
2.43.0


From 2a4c2f06fea83293078d5c43f09eb4064d549d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 42/46] fix: define FlameMasterReactor::GetCpsArray and MeanX
 for arrays

---
 .../ideal_gas_mix/FlameMasterReactor.cpp          | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 9655267..3ae9a70 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -489,6 +489,10 @@ span<const double> FlameMasterReactor::GetCps() const {
   return state_.heat_capacities_at_constant_pressure;
 }
 
+const ArrayXd& FlameMasterReactor::GetCpsArray() const {
+  return array_state_.heat_capacities_at_constant_pressure;
+}
+
 double FlameMasterReactor::GetEnthalpy() const {
   return MeanY(state_.enthalpies);
 }
@@ -783,6 +787,17 @@ double FlameMasterReactor::MeanX(span<const double> quantity) const {
   return retval;
 }
 
+Array1d FlameMasterReactor::MeanX(const ArrayXd& quantity) const {
+  const Array1d meanWeight = GetMeanMolarMassArray();
+  Array1d retval = Array1d::Zero();
+  for (int i = 0; i < array_state_.massFractions.rows(); i++) {
+    const auto j = static_cast<std::size_t>(i);
+    retval += quantity.row(i) * array_state_.massFractions.row(i) * meanWeight /
+              state_.molarMasses[j];
+  }
+  return retval;
+}
+
 double FlameMasterReactor::MeanY(span<const double> quantity) const {
   double retval = 0;
   for (int i = 0; i < state_.nSpecies; i++) {
-- 
2.43.0


From 608e828477c1e36a0c977e66d3f13e3b520f07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 43/46] fix: integrate every gradient component over h-grid
 parts

---
 include/fub/cutcell_method/HGridReconstruction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/cutcell_method/HGridReconstruction.hpp b/include/fub/cutcell_method/HGridReconstruction.hpp
index e34c112..0ddd68c 100644
--- a/include/fub/cutcell_method/HGridReconstruction.hpp
+++ b/include/fub/cutcell_method/HGridReconstruction.hpp
@@ -337,8 +337,8 @@ bool HGridIntegration<Equation, GradientT>::IntegrateCellState(
       const FT du0dz = GetComponent(equation_, gradient_z[i], ncomp);
       v += lambda * u0;
       dvdx += lambda * du0dx;
-      dvdy += lambda * du0dx;
-      dvdz += lambda * du0dx;
+      dvdy += lambda * du0dy;
+      dvdz += lambda * du0dz;
     }
     const double u = v.convert_to<double>();
     const double dudx = dvdx.convert_to<double>();
-- 
2.43.0


From 8e4f4eacf4e87aa74b0d5f3b3478655bd7d6e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 44/46] fix: fail on every rank if the root cannot read a file

---
 src/ext/Mpi.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ext/Mpi.cpp b/src/ext/Mpi.cpp
index 04428f0..b3b5e10 100644
--- a/src/ext/Mpi.cpp
+++ b/src/ext/Mpi.cpp
@@ -33,15 +33,16 @@ std::string ReadAndBroadcastFile(std::string filepath, MPI_Comm comm) {
   int size = -1;
   if (rank == 0) {
     std::ifstream file(filepath);
-    if (!file) {
-      throw std::runtime_error(
-          fmt::format("Could not open file '{}'.", filepath));
+    if (file) {
+      file.seekg(0, std::ios::end);
+      size = static_cast<int>(file.tellg());
     }
-    file.seekg(0, std::ios::end);
-    size = static_cast<int>(file.tellg());
   }
   MPI_Bcast(&size, 1, MPI_INT, 0, comm);
-  FUB_ASSERT(size >= 0);
+  if (size < 0) {
+    throw std::runtime_error(
+        fmt::format("Could not open file '{}'.", filepath));
+  }
   const auto ssize = static_cast<std::size_t>(size);
   buffer.resize(ssize);
   if (rank == 0) {
-- 
2.43.0


From 0979bf60c8ee3d12655b1173e06b4dde91f8c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 45/46] fix: leave cut cells without volume alone in SIMD packs

---
 src/AMReX/cutcell/TimeIntegrator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/AMReX/cutcell/TimeIntegrator.cpp b/src/AMReX/cutcell/TimeIntegrator.cpp
index 1a6a235..f9a33a2 100644
--- a/src/AMReX/cutcell/TimeIntegrator.cpp
+++ b/src/AMReX/cutcell/TimeIntegrator.cpp
@@ -81,6 +81,7 @@ void UpdateConservatively_Row(double* next, const double* prev,
       u_next.store(&next[i], Vc::Unaligned);
       continue;
     }
+    const auto has_volume = alpha > 0.0;
     where(alpha == 0.0, alpha) = 1.0;
     const Vc::double_v betaL(&cc.faceL.beta[i], Vc::Unaligned);
     const Vc::double_v betaR(&cc.faceR.beta[i], Vc::Unaligned);
@@ -149,9 +150,9 @@ void UpdateConservatively_Row(double* next, const double* prev,
     }();
 
     Vc::double_v u_next(0.0);
-    where(alpha > 0.0, u_next) = regular;
-    where(alpha > 0.0 && betaL > betaR, u_next) = left_greater;
-    where(alpha > 0.0 && betaL < betaR, u_next) = right_greater;
+    where(has_volume, u_next) = regular;
+    where(has_volume && betaL > betaR, u_next) = left_greater;
+    where(has_volume && betaL < betaR, u_next) = right_greater;
     u_next.store(&next[i], Vc::Unaligned);
   }
   for (; i < n; ++i) {
-- 
2.43.0


From 65856b5b910aed6d14f0a9f12c08ebf1d5945567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 46/46] fix: count every cell once in means over boxes

---
 src/AMReX/MultiFabUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AMReX/MultiFabUtilities.cpp b/src/AMReX/MultiFabUtilities.cpp
index 454cd20..d2bef98 100644
--- a/src/AMReX/MultiFabUtilities.cpp
+++ b/src/AMReX/MultiFabUtilities.cpp
@@ -79,7 +79,7 @@ double GetMeanValueInBox(const ::amrex::MultiFab& data, const ::amrex::Box& box,
   OmpLocal<double> omp_local_value{double{0.0}};
   ForEachFab(execution::openmp, data, [&](const ::amrex::MFIter& mfi) {
     const ::amrex::FArrayBox& fab = data[mfi];
-    const ::amrex::Box subbox = box & fab.box();
+    const ::amrex::Box subbox = box & mfi.tilebox();
     *omp_local_value += fab.sum(subbox, component) / volume;
   });
   const double local_value = omp_local_value.Accumulate();
-- 
2.43.0

