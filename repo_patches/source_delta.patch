From 6dae860cb0e93d00b70e782ff7acacce4fcd30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 01/49] fix: exact scale factors of gradian, arcminute and
 arcsecond

---
 whippyunits-core/src/units.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 5b8dcd7030ca129b9374c3dedd6cb9a8b9106d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 02/49] fix: magnitude of acre and foot_pound (each was off by
 a power of ten)

---
 whippyunits-core/src/units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..6adb5e2 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 17b52b91454123a9f6fb4bbc18904e39105f0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 03/49] fix: fahrenheit zero point is 459.67

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 6adb5e2..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From cdd5f0ddb634c10c9c76ad21d0bdfe5bc99ad64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 04/49] fix: lumen measures luminous intensity times solid
 angle, not illuminance

---
 whippyunits-core/src/dimensions.rs |  4 ++--
 whippyunits-core/src/units.rs      | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..a8e18ee 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -348,7 +348,7 @@ impl Dimension<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
     pub const LUMINOSITY: Self = __dim!(Self {
         name: "Luminosity",
         symbol: "Cd",
-        units: &[Unit::CANDELA],
+        units: &[Unit::CANDELA, Unit::LUMEN],
     });
 }
 
@@ -526,7 +526,7 @@ impl Dimension<crate::dimension_exponents!([0, -2, 0, 0, 0, 0, 1, 0])> {
     pub const ILLUMINANCE: Self = __dim!(Self {
         name: "Illuminance",
         symbol: "L⁻²Cd",
-        units: &[Unit::LUX, Unit::LUMEN],
+        units: &[Unit::LUX],
     });
 }
 
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index f438a48..e74373b 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -946,23 +946,23 @@ impl Unit<crate::dimension_exponents!([0, -2, 0, 0, 0, 0, 1, 0])> {
         exponents: TypeDimensionExponents::new(),
         system: System::Metric,
     };
+}
 
-    pub const LUMEN: Self = Self {
-        name: "lumen",
-        symbols: &["lm"],
+/// Luminous intensity
+impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
+    pub const CANDELA: Self = Self {
+        name: "candela",
+        symbols: &["cd"],
         scale: ScaleExponents::IDENTITY,
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
         system: System::Metric,
     };
-}
 
-/// Luminous intensity
-impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 1, 0])> {
-    pub const CANDELA: Self = Self {
-        name: "candela",
-        symbols: &["cd"],
+    pub const LUMEN: Self = Self {
+        name: "lumen",
+        symbols: &["lm"],
         scale: ScaleExponents::IDENTITY,
         conversion_factor: IDENTITY,
         affine_offset: NONE,
-- 
2.43.0


From ffbb40f342ffc08550a6c7daa0de29e1463e7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 05/49] fix: dimension exponents of dynamic viscosity

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index a8e18ee..1b703b7 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 4b2a3772425e97bc9f06a901c7051b69d7597b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 06/49] fix: subtracting type-level dimension exponents adds
 them

---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..ac1574f 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -449,14 +449,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0


From 9465e716d2cbeb2e0b96176f8dd5d82ddaca2cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 07/49] fix: powers outside the lookup tables are computed
 instead of read as 1

---
 proc-macros/src/pow_lookup_macro.rs | 54 ++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..cd345f5 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -84,15 +84,22 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: outside the table the powers are computed (and overflow is reported)
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => if exp >= 0 { (checked_power(#base, exp), 1) } else { (1, checked_power(#base, exp)) },
         });
 
         let func_name = &self.name;
 
         quote! {
             pub const fn #func_name(exp: i32) -> (i128, i128) {
+                const fn checked_power(base: i128, exp: i32) -> i128 {
+                    match base.checked_pow(exp.unsigned_abs()) {
+                        Some(power) => power,
+                        None => panic!("scale factor does not fit in 128 bits"),
+                    }
+                }
+
                 match exp {
                     #(#match_arms)*
                 }
@@ -123,15 +130,25 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: outside the table the power is computed
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => float_power(#base, exp),
         });
 
         let func_name = &self.name;
 
         quote! {
             pub const fn #func_name(exp: i32) -> f64 {
+                const fn float_power(base: f64, exp: i32) -> f64 {
+                    let mut power = 1.0;
+                    let mut i = 0;
+                    while i < exp.unsigned_abs() {
+                        power *= base;
+                        i += 1;
+                    }
+                    if exp >= 0 { power } else { 1.0 / power }
+                }
+
                 match exp {
                     #(#match_arms)*
                 }
@@ -238,15 +255,26 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: outside the table the powers are computed (and overflow is reported)
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => if exp >= 0 {
+                (checked_power(355, exp), checked_power(113, exp))
+            } else {
+                (checked_power(113, exp), checked_power(355, exp))
+            },
         });
 
         let func_name = &self.name;
 
         quote! {
             pub const fn #func_name(exp: i32) -> (i128, i128) {
+                const fn checked_power(base: i128, exp: i32) -> i128 {
+                    match base.checked_pow(exp.unsigned_abs()) {
+                        Some(power) => power,
+                        None => panic!("scale factor does not fit in 128 bits"),
+                    }
+                }
+
                 match exp {
                     #(#match_arms)*
                 }
@@ -290,15 +318,25 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: outside the table the power is computed
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => float_power(core::f64::consts::PI, exp),
         });
 
         let func_name = &self.name;
 
         quote! {
             pub const fn #func_name(exp: i32) -> f64 {
+                const fn float_power(base: f64, exp: i32) -> f64 {
+                    let mut power = 1.0;
+                    let mut i = 0;
+                    while i < exp.unsigned_abs() {
+                        power *= base;
+                        i += 1;
+                    }
+                    if exp >= 0 { power } else { 1.0 / power }
+                }
+
                 match exp {
                     #(#match_arms)*
                 }
-- 
2.43.0


From 0c5b62f814bfc6f75932b4a9f4ab7722b3f5d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 08/49] fix: integer rescale of narrow types and negative
 values

The factor was truncated to the storage type and only positive overflow was
considered, giving wrong numbers or spurious panics.
---
 src/scale_conversion.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..d58e0b5 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -232,17 +232,29 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            let value = quantity.unsafe_value;
 
-            // Numerical stability: check for potential overflow on multiplication
-            // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            let result = if num as $T as i128 == num && den as $T as i128 == den {
+                // Numerical stability: check for potential overflow on multiplication
+                // If value * num would overflow, divide first; otherwise multiply first
+                match value.checked_mul(num as $T) {
+                    Some(product) => product / den as $T,
+                    None => match (value / den as $T).checked_mul(num as $T) {
+                        Some(result) => result,
+                        None => panic!("integer rescale overflows the storage type"),
+                    },
+                }
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                // The conversion factor itself does not fit the storage type
+                let value = value as i128;
+                let result = match value.checked_mul(num) {
+                    Some(product) => product / den,
+                    None => (value / den) * num,
+                };
+                if result as $T as i128 != result {
+                    panic!("integer rescale overflows the storage type");
+                }
+                result as $T
             };
 
             Quantity::<
-- 
2.43.0


From 945c4e163392f51c65eba329399f5e13ff99e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 09/49] fix: implicit exponents after a non-ASCII symbol (byte
 offset, not character index)

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 whippyunits-core/src/parser.rs                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..7df8370 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -83,7 +83,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..23a7464 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -177,7 +177,7 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 678cb9a2697016a7c304edfaef97e7baeba5b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 10/49] fix: unit expressions with unknown units or unusable
 numbers are rejected

They were silently read as dimensionless, and exponents that do not fit
were truncated or caused a panic.
---
 whippyunits-core/src/parser.rs | 59 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 23a7464..1cc5f86 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -114,13 +114,23 @@ impl UnitExpr {
 
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
-            let exponent: LitInt = input.parse()?;
+            let exponent = Self::parse_exponent(input)?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
         }
     }
 
+    /// Parse an integer exponent, which must fit the exponent type
+    fn parse_exponent(input: ParseStream) -> Result<LitInt> {
+        let exponent: LitInt = input.parse()?;
+        exponent.base10_parse::<i16>()?;
+        if !exponent.suffix().is_empty() {
+            return Err(syn::Error::new(exponent.span(), "Invalid exponent"));
+        }
+        Ok(exponent)
+    }
+
     fn parse_atom(input: ParseStream) -> Result<Self> {
         if input.peek(syn::token::Paren) {
             let content;
@@ -130,12 +140,18 @@ impl UnitExpr {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
             let lit: syn::LitInt = input.parse()?;
             let base_value: i32 = lit.base10_parse()?;
+            if !lit.suffix().is_empty() || (base_value != 1 && base_value != 10) {
+                return Err(syn::Error::new(
+                    lit.span(),
+                    "Only the literal '1' and powers of the literal '10' can be used in a unit expression",
+                ));
+            }
 
             // Check if this is followed by a caret (^) for power notation
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
-                let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent_lit = Self::parse_exponent(input)?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -144,7 +160,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
@@ -177,30 +193,25 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
-                let base_name = &ident_str[..pos];
-                let exp_str = &ident_str[pos..];
-                if let Ok(exp) = exp_str.parse::<i16>() {
+            let (base_name, exponent) = match ident_str.find(|c: char| c.is_ascii_digit()) {
+                Some(pos) => match ident_str[pos..].parse::<i16>() {
                     // This is implicit exponent notation
-                    let base_ident = syn::Ident::new(base_name, ident.span());
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: base_ident,
-                        exponent: exp,
-                    }))
-                } else {
+                    Ok(exp) => (&ident_str[..pos], exp),
                     // Not a valid exponent, treat as regular unit
-                    Ok(UnitExpr::Unit(UnitExprUnit {
-                        name: ident,
-                        exponent: 1,
-                    }))
-                }
-            } else {
+                    Err(_) => (ident_str.as_str(), 1),
+                },
                 // Regular unit identifier
-                Ok(UnitExpr::Unit(UnitExprUnit {
-                    name: ident,
-                    exponent: 1,
-                }))
+                None => (ident_str.as_str(), 1),
+            };
+
+            if get_unit_info(base_name).is_none() {
+                return Err(syn::Error::new(ident.span(), "Unknown unit"));
             }
+
+            Ok(UnitExpr::Unit(UnitExprUnit {
+                name: syn::Ident::new(base_name, ident.span()),
+                exponent,
+            }))
         }
     }
 
-- 
2.43.0


From b313b30b2b3209304f30f5d55248ba5cee76482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 11/49] fix: unit expressions whose exponents overflow are
 rejected instead of panicking

---
 src/api.rs                     | 32 ++++++++++++-------------
 whippyunits-core/src/parser.rs | 43 ++++++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 2b7ae30..eadf6ea 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -148,17 +148,17 @@ define_aggregate_scale_factor_rational!(
     ),
     // diff expressions
     (
-        let diff_scale_p2 = scale_p2_from - scale_p2_to;
-        let diff_scale_p3 = scale_p3_from - scale_p3_to;
-        let diff_scale_p5 = scale_p5_from - scale_p5_to;
-        let diff_scale_pi = scale_pi_from - scale_pi_to;
+        let diff_scale_p2 = scale_p2_from as i32 - scale_p2_to as i32;
+        let diff_scale_p3 = scale_p3_from as i32 - scale_p3_to as i32;
+        let diff_scale_p5 = scale_p5_from as i32 - scale_p5_to as i32;
+        let diff_scale_pi = scale_pi_from as i32 - scale_pi_to as i32;
     ),
     // pow expressions
     (
-        let (num2, den2) = pow2(diff_scale_p2 as i32);
-        let (num3, den3) = pow3(diff_scale_p3 as i32);
-        let (num5, den5) = pow5(diff_scale_p5 as i32);
-        let (num_pi, den_pi) = pow_pi(diff_scale_pi as i32);
+        let (num2, den2) = pow2(diff_scale_p2);
+        let (num3, den3) = pow3(diff_scale_p3);
+        let (num5, den5) = pow5(diff_scale_p5);
+        let (num_pi, den_pi) = pow_pi(diff_scale_pi);
     ),
     // num and den expressions
     (num2 * num3 * num5 * num_pi),
@@ -173,17 +173,17 @@ define_aggregate_scale_factor_float!(
     ),
     // diff expressions
     (
-        let diff_scale_p2 = scale_p2_from - scale_p2_to;
-        let diff_scale_p3 = scale_p3_from - scale_p3_to;
-        let diff_scale_p5 = scale_p5_from - scale_p5_to;
-        let diff_scale_pi = scale_pi_from - scale_pi_to;
+        let diff_scale_p2 = scale_p2_from as i32 - scale_p2_to as i32;
+        let diff_scale_p3 = scale_p3_from as i32 - scale_p3_to as i32;
+        let diff_scale_p5 = scale_p5_from as i32 - scale_p5_to as i32;
+        let diff_scale_pi = scale_pi_from as i32 - scale_pi_to as i32;
     ),
     // pow expressions
     (
-        let pow_2 = crate::scale_conversion::pow2_float(diff_scale_p2 as i32);
-        let pow_3 = crate::scale_conversion::pow3_float(diff_scale_p3 as i32);
-        let pow_5 = crate::scale_conversion::pow5_float(diff_scale_p5 as i32);
-        let pow_pi = crate::scale_conversion::pow_pi_float(diff_scale_pi as i32);
+        let pow_2 = crate::scale_conversion::pow2_float(diff_scale_p2);
+        let pow_3 = crate::scale_conversion::pow3_float(diff_scale_p3);
+        let pow_5 = crate::scale_conversion::pow5_float(diff_scale_p5);
+        let pow_pi = crate::scale_conversion::pow_pi_float(diff_scale_pi);
     ),
     // final expression
     (pow_2 * pow_3 * pow_5 * pow_pi),
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 1cc5f86..6db284b 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -61,6 +61,10 @@ impl Parse for UnitExpr {
             left = UnitExpr::Div(Box::new(left), Box::new(right));
         }
 
+        if left.checked_exponents().is_none() {
+            return Err(input.error("Exponent out of range"));
+        }
+
         Ok(left)
     }
 }
@@ -121,6 +125,45 @@ impl UnitExpr {
         }
     }
 
+    /// Dimension and scale exponents of this expression, or None if they overflow
+    fn checked_exponents(&self) -> Option<[i16; 12]> {
+        let combine = |a: [i16; 12], b: [i16; 12], op: fn(i16, i16) -> Option<i16>| {
+            let mut exponents = [0; 12];
+            for i in 0..12 {
+                exponents[i] = op(a[i], b[i])?;
+            }
+            Some(exponents)
+        };
+
+        match self {
+            UnitExpr::Unit(unit) => {
+                let unit_once = UnitExpr::Unit(UnitExprUnit {
+                    name: unit.name.clone(),
+                    exponent: 1,
+                });
+                let result = unit_once.evaluate_with_mode(EvaluationMode::Tolerant);
+                let mut exponents = [0; 12];
+                exponents[..8].copy_from_slice(&result.dimension_exponents.0);
+                exponents[8..].copy_from_slice(&result.scale_exponents.0);
+                combine(exponents, [unit.exponent; 12], i16::checked_mul)
+            }
+            UnitExpr::Mul(a, b) => combine(
+                a.checked_exponents()?,
+                b.checked_exponents()?,
+                i16::checked_add,
+            ),
+            UnitExpr::Div(a, b) => {
+                let inverse = combine(b.checked_exponents()?, [-1; 12], i16::checked_mul)?;
+                combine(a.checked_exponents()?, inverse, i16::checked_add)
+            }
+            UnitExpr::Pow(base, exp) => combine(
+                base.checked_exponents()?,
+                [exp.base10_parse().ok()?; 12],
+                i16::checked_mul,
+            ),
+        }
+    }
+
     /// Parse an integer exponent, which must fit the exponent type
     fn parse_exponent(input: ParseStream) -> Result<LitInt> {
         let exponent: LitInt = input.parse()?;
-- 
2.43.0


From 66884905bf1f45989bf4c1c318ec66d14207bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 12/49] fix: serialized unit and value denote the quantity

The unit string was built from the dimension alone, so scaled and
mass-bearing quantities were written with a wrong unit and compound units
were written in a form that cannot be read back.
---
 src/serialization.rs | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..7028e21 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -38,8 +38,6 @@
 //! for sufficiently resource-constrained environments.
 
 use crate::api::aggregate_scale_factor_float;
-use crate::print::name_lookup::generate_systematic_unit_name_with_format;
-use crate::print::prettyprint::UnitFormat;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
@@ -53,13 +51,13 @@ pub type UnitDimensions = (
     whippyunits_core::scale_exponents::ScaleExponents,
 );
 
-use crate::alloc::{String, ToString, Vec, format, vec};
+use crate::alloc::{String, ToString, Vec, format};
 use proc_macro2::TokenStream;
 use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
-/// Convert a whippyunits quantity to UCUM unit string
+/// Convert a whippyunits quantity to UCUM unit string (the SI unit of its dimension)
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -93,7 +91,7 @@ pub fn to_ucum_unit<
 where
     T: Into<f64> + Copy,
 {
-    let exponents = vec![
+    let exponents = [
         MASS_EXPONENT,
         LENGTH_EXPONENT,
         TIME_EXPONENT,
@@ -103,7 +101,29 @@ where
         LUMINOSITY_EXPONENT,
         ANGLE_EXPONENT,
     ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    let symbols = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
+
+    let factors: Vec<String> = symbols
+        .iter()
+        .zip(exponents)
+        .filter(|(_, exponent)| *exponent != 0)
+        .map(|(symbol, exponent)| match exponent {
+            1 => symbol.to_string(),
+            _ => format!("{}^{}", symbol, exponent),
+        })
+        .collect();
+
+    if factors.is_empty() {
+        "1".to_string()
+    } else {
+        factors.join(".")
+    }
+}
+
+/// The numeric value of a quantity in the unit given by [`to_ucum_unit`]
+fn to_ucum_value<T: Into<f64>>(value: T, scale: ScaleExponents) -> f64 {
+    let [p2, p3, p5, pi] = scale.0;
+    value.into() * aggregate_scale_factor_float(p2, p3, p5, pi, 0, 0, 0, 0)
 }
 
 /// Errors that can occur during UCUM serialization/deserialization
@@ -249,7 +269,10 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        let value = to_ucum_value(
+            self.unsafe_value,
+            ScaleExponents([SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI]),
+        );
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +616,10 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    let value = to_ucum_value(
+        quantity.unsafe_value,
+        ScaleExponents([SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI]),
+    );
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From b0e6e45c3f7edd0a9277bd603de111142e48fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 13/49] fix: quantity! of a non-storage unit ignored implicit
 exponents, storage type and brand

---
 proc-macros/src/quantity_macro.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..88d27a1 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -54,13 +54,15 @@ impl QuantityMacroInput {
 
         // Check if this is a simple atomic unit that's nonstorage/affine
         // For these, we can dispatch directly to the declarator
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
+        // (declarators only exist for the default brand and some storage types)
+        let explicit_type = self.storage_type.is_some() || self.brand_type.is_some();
+        if let (UnitExpr::Unit(unit), false) = (&self.unit_expr, explicit_type) {
             if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
 
-                if is_nonstorage || is_affine {
+                if (is_nonstorage || is_affine) && unit.exponent == 1 {
                     // Dispatch to appropriate declarator (handles conversion internally)
                     let expanded = self.expand_with_declarator(unit_info);
                     return quote! {
-- 
2.43.0


From 685742d723f7c035ef0c3e098113488b52628d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 14/49] fix: value! in an affine unit written by name used the
 wrong storage unit

---
 proc-macros/src/value_macro.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..d9802fd 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -58,7 +58,7 @@ impl ValueMacroInput {
         // Check if this is a simple atomic unit that's affine
         let is_affine = if let UnitExpr::Unit(unit) = &self.unit_expr {
             if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
-                unit_info.affine_offset != 0.0
+                unit_info.affine_offset != 0.0 && unit.exponent == 1
             } else {
                 false
             }
@@ -138,6 +138,7 @@ impl ValueMacroInput {
             // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
             let storage_unit_symbol = if let Some((unit, dimension)) =
                 Dimension::find_unit_by_symbol(&unit_name)
+                    .or_else(|| Dimension::find_unit_by_name(&unit_name))
             {
                 // Find a storage unit with the same scale
                 if let Some(storage_unit) = dimension.units.iter().find(|u| {
-- 
2.43.0


From 88a143ebe2ebd69d5eba5f125ebf6ba23677cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 15/49] fix: whole unit symbols win over prefix splitting;
 longest prefix symbol wins

---
 whippyunits-core/src/dimensions.rs | 12 ++++++------
 whippyunits-core/src/prefix.rs     | 17 +++++++----------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index 1b703b7..4949829 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -139,6 +139,12 @@ impl Dimension {
         literal: &str,
     ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
         // First try the literal as-is
+        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
+            return Some((unit, dimension, None));
+        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
+            return Some((unit, dimension, None));
+        }
+
         if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal)
             && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
         {
@@ -151,12 +157,6 @@ impl Dimension {
             return Some((unit, dimension, Some(prefix)));
         }
 
-        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
-            return Some((unit, dimension, None));
-        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
-            return Some((unit, dimension, None));
-        }
-
         // If not found, try with plural "s" stripped (but only if the result is not empty)
         if literal.len() > 1 {
             let literal_singular = literal.trim_end_matches("s");
diff --git a/whippyunits-core/src/prefix.rs b/whippyunits-core/src/prefix.rs
index 07c4234..4fc337f 100644
--- a/whippyunits-core/src/prefix.rs
+++ b/whippyunits-core/src/prefix.rs
@@ -145,16 +145,13 @@ impl SiPrefix {
     ///
     /// The stripped prefix is returned along with the base unit string.
     pub fn strip_any_prefix_symbol(s: &str) -> Option<(&'static Self, &str)> {
-        Self::ALL.iter().find_map(|prefix| {
-            prefix.strip_prefix_symbol(s).and_then(|base| {
-                // Only return a prefix if there's actually a base unit after the prefix
-                if !base.is_empty() {
-                    Some((prefix, base))
-                } else {
-                    None
-                }
-            })
-        })
+        // The longest prefix wins: "dam" is deca-metre, not deci-"am"
+        Self::ALL
+            .iter()
+            .filter_map(|prefix| prefix.strip_prefix_symbol(s).map(|base| (prefix, base)))
+            // Only return a prefix if there's actually a base unit after the prefix
+            .filter(|(_, base)| !base.is_empty())
+            .min_by_key(|(_, base)| base.len())
     }
 }
 
-- 
2.43.0


From c6fa604b4c690556abefaa30c5d8446f36430f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 16/49] fix: parsec factor to full precision

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index e74373b..11152b0 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -416,7 +416,7 @@ impl Unit<crate::dimension_exponents!([0, 1, 0, 0, 0, 0, 0, 0])> {
         name: "parsec",
         symbols: &["pc"],
         scale: ScaleExponents::_10(16),
-        conversion_factor: 3.08567758128,
+        conversion_factor: 3.0856775814913673,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
         system: System::Astronomical,
-- 
2.43.0


From c12886950e17a9baa014a93e2955253154007be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 17/49] fix: unit symbols that are Rust keywords (in, as) can
 be written

---
 proc-macros/src/utils/shared_utils.rs | 7 +++++++
 whippyunits-core/src/parser.rs        | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..6a566da 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -419,6 +419,13 @@ pub fn generate_unit_documentation_for_expr(
 
             let doc_comment = generate_unit_doc_comment(&unit_name);
 
+            // Unit symbols that are Rust keywords ("in", "as") need a raw identifier
+            let ident = if is_valid_identifier(&unit_name) {
+                ident
+            } else {
+                Ident::new_raw(&unit_name, ident.span())
+            };
+
             quote! {
                 const _: () = {
                     #doc_comment
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 6db284b..2c4b944 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -232,7 +233,8 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // Unit symbols may be Rust keywords ("in", "as")
+            let ident = input.call(Ident::parse_any)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From 59f344b77b9973bf4de267319009c1a84d89ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 18/49] fix: f32 rescale with a factor outside the range of f32

---
 src/scale_conversion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index d58e0b5..1e7e86c 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -159,14 +159,15 @@ macro_rules! _define_float_rescale {
         ) -> $($float_rescale_output_type)* {
             let rescale_factor = aggregate_scale_factor_float(
                 $($float_rescale_aggregate_args)*
-            ) as $T;
+            );
             Quantity::<
                 Scale<_2<SCALE_P2_TO>, _3<SCALE_P3_TO>, _5<SCALE_P5_TO>, _Pi<SCALE_PI_TO>>,
                 Dimension<_M<MASS_EXPONENT>, _L<LENGTH_EXPONENT>, _T<TIME_EXPONENT>, _I<CURRENT_EXPONENT>, _Θ<TEMPERATURE_EXPONENT>, _N<AMOUNT_EXPONENT>, _J<LUMINOSITY_EXPONENT>, _A<ANGLE_EXPONENT>>,
                 $T,
                 Brand,
             >::new(
-                quantity.unsafe_value * rescale_factor
+                // The factor may lie outside the range of `f32` even if the result does not
+                (quantity.unsafe_value as f64 * rescale_factor) as $T
             )
         }
     };
-- 
2.43.0


From fa94c0bb5376801a815b5f7e005ac971381b4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 19/49] fix: reduce_rational needed unbounded time when only
 one number was even

---
 src/scale_conversion.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 1e7e86c..d444d8b 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -78,10 +78,11 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Set the common factors of 2 aside
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    // What is left of them in either number is not part of the GCD
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
@@ -95,8 +96,8 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the GCD up to the common factors of 2
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From 5311689403b38992aeb469bf51887688b080e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 20/49] fix: integer rescale dividing first returned wrong
 numbers near the limits of the type

---
 src/quantity.rs         |  3 +-
 src/scale_conversion.rs | 86 ++++++++++++++++++++++++++++++-----------
 2 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..1834cc5 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -51,8 +51,7 @@
 //! use rational arithmetic for rescaling.  All conversion ratios are computed from exponents via
 //! lookup table, by exponent, in the highest-precision (float or integer) type supported by the crate.
 //!
-//! Integer rescaling has a simple overflow heuristic: if `value * num` would overflow, we compute
-//! `(value / den) * num`; otherwise `(value * num) / den`.
+//! Integer rescaling computes `(value * num) / den`, by long division if `value * num` would overflow.
 //!
 //! ## Brand
 //!
diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index d444d8b..2981c6d 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -106,6 +106,37 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     (reduced_num, reduced_den)
 }
 
+/// `value * num / den` truncated, without overflow of the intermediate product.
+///
+/// Returns `None` if the result itself does not fit. `num` and `den` must be below `2^127`.
+pub const fn mul_div(value: u128, num: u128, den: u128) -> Option<u128> {
+    let Some(whole) = (value / den).checked_mul(num) else {
+        return None;
+    };
+    // Binary long division of (value % den) * num, most significant bit of num first
+    let step = value % den;
+    let mut part = 0;
+    let mut remainder = 0;
+    let mut bit = 128;
+    while bit > 0 {
+        bit -= 1;
+        part *= 2;
+        remainder *= 2;
+        if remainder >= den {
+            remainder -= den;
+            part += 1;
+        }
+        if num >> bit & 1 == 1 {
+            remainder += step;
+            if remainder >= den {
+                remainder -= den;
+                part += 1;
+            }
+        }
+    }
+    whole.checked_add(part)
+}
+
 #[macro_export]
 #[doc(hidden)]
 macro_rules! _define_float_rescale {
@@ -187,9 +218,9 @@ macro_rules! _define_int_rescale {
         /// Rescale a quantity to a different unit of the same dimension.
         ///
         /// This function uses pure integer math - conversion factors are computed as rational numbers
-        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). To avoid overflow,
-        /// the calculation order is chosen heuristically: if `value * num` would overflow, we compute
-        /// `(value / den) * num`; otherwise `(value * num) / den`.
+        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113), and the result is
+        /// truncated toward zero. If `value * num` would overflow, the result is computed by long division;
+        /// a result that does not fit the storage type is an error (a panic, at compile time in const contexts).
         ///
         /// Rescale works robustly with type inference, and it is not necessary to explicitly specify the
         /// const generic parameters (of which there are many).  Instead, specify the target type with
@@ -236,27 +267,38 @@ macro_rules! _define_int_rescale {
             );
             let value = quantity.unsafe_value;
 
-            let result = if num as $T as i128 == num && den as $T as i128 == den {
-                // Numerical stability: check for potential overflow on multiplication
-                // If value * num would overflow, divide first; otherwise multiply first
-                match value.checked_mul(num as $T) {
-                    Some(product) => product / den as $T,
-                    None => match (value / den as $T).checked_mul(num as $T) {
-                        Some(result) => result,
-                        None => panic!("integer rescale overflows the storage type"),
-                    },
-                }
+            // Multiply first if the product fits the storage type
+            let product = if num as $T as i128 == num && den as $T as i128 == den {
+                value.checked_mul(num as $T)
             } else {
-                // The conversion factor itself does not fit the storage type
-                let value = value as i128;
-                let result = match value.checked_mul(num) {
-                    Some(product) => product / den,
-                    None => (value / den) * num,
-                };
-                if result as $T as i128 != result {
-                    panic!("integer rescale overflows the storage type");
+                None
+            };
+            let result = match product {
+                Some(product) => product / den as $T,
+                None => {
+                    #[allow(unused_comparisons)]
+                    let negative = value < 0;
+                    let magnitude = if negative {
+                        (value as i128).unsigned_abs()
+                    } else {
+                        value as u128
+                    };
+                    let Some(scaled) = mul_div(magnitude, num as u128, den as u128) else {
+                        panic!("integer rescale overflows the storage type")
+                    };
+                    let result = scaled as $T;
+                    #[allow(unused_comparisons)]
+                    let fits = if negative {
+                        result.wrapping_neg() <= 0
+                            && (result.wrapping_neg() as i128).unsigned_abs() == scaled
+                    } else {
+                        result >= 0 && result as u128 == scaled
+                    };
+                    if !fits {
+                        panic!("integer rescale overflows the storage type");
+                    }
+                    if negative { result.wrapping_neg() } else { result }
                 }
-                result as $T
             };
 
             Quantity::<
-- 
2.43.0


From f38c0056a92dba7661c9e9ebfe9608645bbf9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:36 +0000
Subject: [PATCH 21/49] fix: unit strings do not read // and /* as comments

---
 src/serialization.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index 7028e21..cd1eea0 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -640,6 +640,14 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
+    // A unit string is not Rust source: the lexer would silently drop anything
+    // after `//` (or inside `/* */`) as a comment and read "m//s" as "m".
+    if ucum_string.contains("//") || ucum_string.contains("/*") {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents([
+            0, 0, 0, 0, 0, 0, 0, 0,
+        ])));
+    }
+
     // Convert the string to a TokenStream for parsing
     let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-- 
2.43.0


From 56e0db0afcf028619f6dabf5c86ebd6e0037b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 22/49] fix: declarator methods of liter, stokes and hectare
 keep the unit's scale

---
 .../src/generate_default_declarators_macro.rs | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..a77c2a5 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -351,14 +351,8 @@ impl DefaultDeclaratorsInput {
                 let unit_suffix = whippyunits_core::make_plural(unit.name);
                 let base_fn_name = unit_suffix.to_string();
 
-                // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // Scale factors of the base unit (gram, liter, stokes and hectare have an inherent scale)
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +368,11 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // The prefix applies on top of the base unit's scale
+                    let p2 = base_p2 + prefix.factor_log10();
+                    let p3 = base_p3;
+                    let p5 = base_p5 + prefix.factor_log10();
+                    let pi = base_pi;
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 7dfc282eac94ceedfd1a72ee929f7c93189c97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 23/49] fix: from_json! reports repeated fields instead of
 keeping the last

---
 src/serialization.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd1eea0..c6673e5 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -994,6 +994,18 @@ pub fn parse_json_input(json: &str) -> Result<(f64, String), SerializationError>
     let json_value: serde_json::Value = serde_json::from_str(json)
         .map_err(|e| SerializationError::ParseError(format!("Invalid JSON format: {}", e)))?;
 
+    // `serde_json::Value` silently keeps the last of several equal fields
+    #[derive(Deserialize)]
+    #[allow(dead_code)]
+    struct Fields {
+        value: serde::de::IgnoredAny,
+        unit: serde::de::IgnoredAny,
+    }
+    if json_value.is_object() {
+        serde_json::from_str::<Fields>(json)
+            .map_err(|e| SerializationError::InvalidFormat(e.to_string()))?;
+    }
+
     let value: f64 = json_value["value"].as_f64().ok_or_else(|| {
         SerializationError::InvalidFormat("Missing or invalid 'value' field".to_string())
     })?;
-- 
2.43.0


From 1cdfc3783da205a25c86a78bc82fb616d2a0ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 24/49] fix: text without a space after the number may have
 spaces in its unit

---
 src/serialization.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index c6673e5..64fa1ba 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1029,14 +1029,13 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
 
     if parts.len() >= 2 {
         // Space-separated format: "5.0 m"
-        let value: f64 = parts[0].parse().map_err(|e| {
-            SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
-        })?;
-        let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
-        return Ok((value, unit_str));
+        if let Ok(value) = parts[0].parse::<f64>() {
+            let unit_str = parts[1..].join(" "); // Join remaining parts in case unit has spaces
+            return Ok((value, unit_str));
+        }
     }
 
-    // No space found - try to parse by finding the boundary between number and unit
+    // No space after the number ("5.0m", "5.0m / s") - try to parse by finding the boundary between number and unit
     // Find the longest valid numeric prefix by trying all possible prefixes
     let chars: Vec<char> = trimmed.chars().collect();
     let mut end_of_number = 0;
-- 
2.43.0


From d945947c0a63afcead1e68c64a2fb033aaeddd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 25/49] fix: deeply nested or very long unit strings are
 rejected instead of exhausting the stack

---
 src/serialization.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index 64fa1ba..abb8b8e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -648,6 +648,26 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ])));
     }
 
+    // The expression parser is recursive: bound the nesting and the number of
+    // factors, so that untrusted input cannot exhaust the stack.
+    const MAX_NESTING: usize = 128;
+    const MAX_OPERATORS: usize = 512;
+    let mut depth: usize = 0;
+    let mut operators: usize = 0;
+    for c in ucum_string.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            '*' | '.' | '/' | '^' => operators += 1,
+            _ => {}
+        }
+        if depth > MAX_NESTING || operators > MAX_OPERATORS {
+            return Err(UcumError::UnknownDimension(DynDimensionExponents([
+                0, 0, 0, 0, 0, 0, 0, 0,
+            ])));
+        }
+    }
+
     // Convert the string to a TokenStream for parsing
     let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
-- 
2.43.0


From 03e68b57bd5839e27d2a4953f1fb05b489289b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 26/49] fix: display of numbers of extreme magnitude does not
 overflow to inf or NaN

---
 src/print/prettyprint.rs             | 8 ++++++--
 whippyunits-core/src/storage_unit.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..d47c28b 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -445,9 +445,13 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
-    let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    // Round in decimal: a power of ten for the scaling would overflow for very small values
+    let rounded = format!("{:.*e}", sig_figs.saturating_sub(1), value)
+        .parse::<f64>()
+        .ok()
+        .filter(|rounded| rounded.is_finite())
+        .unwrap_or(value);
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..f2311f5 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -543,9 +543,13 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
-    let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    // Round in decimal: a power of ten for the scaling would overflow for very small values
+    let rounded = format!("{:.*e}", sig_figs.saturating_sub(1), value)
+        .parse::<f64>()
+        .ok()
+        .filter(|rounded| rounded.is_finite())
+        .unwrap_or(value);
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
-- 
2.43.0


From f750105368ea92ebcbff8d99fa8c7f0f809513aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 27/49] fix: displayed unit names denote the quantity's scale

---
 whippyunits-core/src/storage_unit.rs | 92 ++++++++++++++--------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index f2311f5..8468461 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,14 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only a unit of exactly this scale names the quantity on its own; any other
+        // scale needs a prefix or a factor, which the caller adds
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| {
+                unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
+            })
             .map(|unit| {
                 if long_name {
                     unit.name
@@ -378,28 +369,29 @@ pub fn generate_prefixed_systematic_unit(
         total_scale_p10
     };
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    // Check if this is a pure power of 10 using whippyunits-core
+    let is_pure_power_of_10 = scale_factors.log10().is_some();
+    let prefix = get_si_prefix(effective_scale_p10, long_name).filter(|_| is_pure_power_of_10);
+
+    if let Some(prefix) = prefix {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
+        if is_power(base_unit) {
             format!("{}({})", prefix, base_unit)
         } else {
             format!("{}{}", prefix, base_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
         if is_pure_power_of_10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
+            // (relative to the base unit, whose own scale is a power of 10)
+            let base_scale_offset = -effective_scale_p10;
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
+                scale_factors.0[0] - base_scale_offset,
                 scale_factors.0[1],
-                scale_factors.0[2],
+                scale_factors.0[2] - base_scale_offset,
                 scale_factors.0[3],
             );
             if scale_factors_str.is_empty() {
@@ -441,30 +433,29 @@ pub fn generate_prefixed_si_unit(
             }
         };
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    // Check if this is a pure power of 10 using whippyunits-core
+    let is_pure_power_of_10 = scale_factors.log10().is_some();
+    let prefix = get_si_prefix(effective_scale_p10, long_name).filter(|_| is_pure_power_of_10);
+
+    if let Some(prefix) = prefix {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
+        if is_power(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
         } else {
             format!("{}{}", prefix, base_si_unit)
         }
     } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
         if is_pure_power_of_10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
+            // (relative to the base unit, whose own scale is a power of 10)
+            let base_scale_offset = -effective_scale_p10;
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
+                scale_factors.0[0] - base_scale_offset,
                 scale_factors.0[1],
-                scale_factors.0[2],
+                scale_factors.0[2] - base_scale_offset,
                 scale_factors.0[3],
             );
             if scale_factors_str.is_empty() {
@@ -476,6 +467,11 @@ pub fn generate_prefixed_si_unit(
     }
 }
 
+/// Whether a unit name is a single unit raised to a power
+fn is_power(unit: &str) -> bool {
+    !unit.contains("·") && unit.contains(|c| matches!(c, '^' | '⁻' | '⁰' | '¹' | '²' | '³' | '⁴'..='⁹'))
+}
+
 /// Calculate total power of 10 using whippyunits-core ScaleExponents
 fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
     let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
@@ -611,6 +607,7 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    let mut scale_matched = false;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -623,22 +620,26 @@ pub fn generate_systematic_composite_unit_name_with_scale(
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
                 let matched_unit = if let Some(scale) = scale_factors {
+                    // A unit carrying the aggregate scale stands for it only when taken once
+                    let carries_scale = exp == 1 && !scale_matched;
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
                     dimension
                         .units
                         .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
+                        .find(|unit| {
+                            carries_scale
+                                && unit.scale == scale
+                                && unit.scale != ScaleExponents::IDENTITY
+                                && unit.conversion_factor == 1.0
+                        })
+                        .inspect(|_| scale_matched = true)
                         // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
                         .or_else(|| {
-                            if scale == ScaleExponents::IDENTITY {
-                                None // Already tried identity above
-                            } else {
-                                dimension.units.iter().find(|unit| {
-                                    unit.scale == ScaleExponents::IDENTITY
-                                        && unit.conversion_factor == 1.0
-                                })
-                            }
+                            dimension.units.iter().find(|unit| {
+                                unit.scale == ScaleExponents::IDENTITY
+                                    && unit.conversion_factor == 1.0
+                            })
                         })
                 } else {
                     None
@@ -654,8 +655,9 @@ pub fn generate_systematic_composite_unit_name_with_scale(
                 ("?", "?", 0)
             };
 
-        // For compound units, convert g to kg for mass terms
-        let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1;
+        // For compound units and powers, convert g to kg for mass terms
+        let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1
+            || (exp != 1 && exp != i16::MIN);
         let (adjusted_unit_name, adjusted_unit_symbol) =
             if is_compound_unit && base_scale_offset != 0 && index == 0 {
                 // This is a compound unit with mass dimension (index 0) that has a scale offset
-- 
2.43.0


From 49b1ec1aaa8f5c0c45b065f3fa5466d24ac2fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 28/49] fix: local declarators store every unit at the
 preferred scales

Preferred scales other than a few common ones were ignored in compound units, and
local macros rejected units written with an exponent or by name and units that are
not storage units.
---
 proc-macros/src/local_unit_type_macro.rs | 142 +++--------------------
 proc-macros/src/utils/lift_trace.rs      |  56 ++++-----
 2 files changed, 47 insertions(+), 151 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..627fb1b 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,53 +7,12 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{Dimension, Unit};
+use whippyunits_core::{get_unit_info, Dimension, Unit};
 
 // Import the helper functions from lift_trace
-use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
-
-/// Convert a scale type name to the actual unit symbol
-/// This uses direct core APIs instead of api_helpers
-fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
-    use whippyunits_core::SiPrefix;
-
-    // Try to find a unit that matches the scale type name directly
-    for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
-            return Some(unit.symbols[0].to_string());
-        }
-    }
-
-    // Try to find in all dimensions
-    for dimension in Dimension::ALL {
-        for unit in dimension.units {
-            if unit.name == scale_type {
-                return Some(unit.symbols[0].to_string());
-            }
-        }
-    }
-
-    // Try to parse as a prefixed scale type name (like "Kilogram" -> "kilo" + "gram")
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(scale_type) {
-        // Find the base unit
-        for unit in Unit::BASES.iter() {
-            if unit.name == base {
-                return Some(format!("{}{}", prefix.symbol(), unit.symbols[0]));
-            }
-        }
-
-        // Try to find in all dimensions
-        for dimension in Dimension::ALL {
-            for unit in dimension.units {
-                if unit.name == base {
-                    return Some(format!("{}{}", prefix.symbol(), unit.symbols[0]));
-                }
-            }
-        }
-    }
-
-    None
-}
+use crate::utils::lift_trace::{
+    is_prefixed_base_unit, is_prefixed_compound_unit, scale_type_to_actual_unit_symbol,
+};
 
 /// Get units by their dimension exponents
 fn get_units_by_exponents(
@@ -713,31 +672,6 @@ impl LocalQuantityMacroInput {
         result
     }
 
-    /// Handle prefixed compound unit logic for a single unit
-    fn handle_prefixed_compound_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> Option<TokenStream> {
-        if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-            if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                let dimensions = dimension.exponents;
-                let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
-                return Some(self.generate_compound_unit_quote(
-                    &unit_expr_parsed,
-                    storage_type,
-                    brand_type,
-                    lift_trace_doc_shadows,
-                ));
-            }
-        }
-        None
-    }
-
     /// Handle single unit logic (both prefixed and non-prefixed)
     fn handle_single_unit(
         &self,
@@ -746,63 +680,14 @@ impl LocalQuantityMacroInput {
         brand_type: &Type,
         lift_trace_doc_shadows: &TokenStream,
     ) -> TokenStream {
-        // First try to handle as prefixed compound unit
-        if let Some(quote_result) = self.handle_prefixed_compound_unit(
-            unit_name,
-            storage_type,
-            brand_type,
-            lift_trace_doc_shadows,
-        ) {
-            return quote_result;
+        let is_number = matches!(unit_name, "dimensionless" | "power_of_10");
+        if !is_number && get_unit_info(unit_name).is_none() {
+            // Unknown unit, generate error with suggestions
+            return self.generate_unknown_unit_error(unit_name);
         }
 
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
-
-        let dimensions = dimension.exponents;
-
-        // Check if it's a simple base unit
-        if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-            self.generate_simple_base_unit_quote(
-                &scale_ident,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        } else {
-            // It's a compound unit - generate the unit expression
-            let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
-            self.generate_compound_unit_quote(
-                &unit_expr_parsed,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        }
+        // The unit may carry an exponent (like m2) and may be written by its name
+        self.handle_algebraic_expression(storage_type, brand_type, lift_trace_doc_shadows)
     }
 
     /// Handle algebraic expression logic
@@ -875,6 +760,13 @@ impl LocalQuantityMacroInput {
 
     /// Get the local target type for a single unit identifier (reuses existing lift logic)
     fn get_local_target_type_for_unit(&self, unit_name: &str, storage_type: &Type) -> TokenStream {
+        // Only storage units have a declarator type of their own
+        if let Some(storage_type) =
+            crate::utils::shared_utils::get_storage_unit_type_for_unit(unit_name)
+        {
+            return storage_type;
+        }
+
         // Check if this is a time unit that needs conversion (like h → s)
         if let Some(_time_conversion) = self.get_time_unit_conversion(unit_name) {
             // For time units with conversion factors, return the target time unit declarator
diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index b8d620e..0f935ee 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -6,6 +6,8 @@ use whippyunits_core::{
     Dimension, SiPrefix, Unit,
 };
 
+use crate::utils::shared_utils::generate_scale_name;
+
 // Import the UnitExpr type from unit_macro
 use whippyunits_core::UnitExpr;
 
@@ -36,38 +38,40 @@ fn lookup_si_prefix(prefix_symbol: &str) -> Option<&'static SiPrefix> {
     SiPrefix::from_symbol(prefix_symbol)
 }
 
-/// Convert a scale type name to the actual unit symbol
+/// Convert a scale type name (the name of a default declarator type, like "Kilogram" or
+/// "Minute") to the actual unit symbol
 pub fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
-    // Handle the mapping from capitalized scale type names to actual unit symbols
-    match scale_type {
-        "Kilogram" => Some("kg".to_string()),   // kilogram
-        "Millimeter" => Some("mm".to_string()), // millimeter
-        "Second" => Some("s".to_string()),      // second
-        "Ampere" => Some("A".to_string()),      // ampere
-        "Kelvin" => Some("K".to_string()),      // kelvin
-        "Mole" => Some("mol".to_string()),      // mole
-        "Candela" => Some("cd".to_string()),    // candela
-        "Radian" => Some("rad".to_string()),    // radian
-        _ => {
-            // Try to find a unit that matches the scale type name directly
-            for unit in Unit::BASES.iter() {
-                if unit.name == scale_type {
-                    return Some(unit.symbols[0].to_string());
-                }
+    for dimension in Dimension::BASIS {
+        for unit in dimension.units {
+            if generate_scale_name("", unit.name) == scale_type {
+                return Some(writable(unit.symbols[0].to_string(), unit.name));
             }
+        }
+    }
 
-            // Try to find in all dimensions
-            for dimension in Dimension::ALL {
-                for unit in dimension.units {
-                    if unit.name == scale_type {
-                        return Some(unit.symbols[0].to_string());
-                    }
-                }
+    // Only base units (the first unit of a dimension) have prefixed declarator types
+    for unit in Dimension::BASIS.iter().filter_map(|d| d.units.first()) {
+        for prefix in SiPrefix::ALL {
+            if generate_scale_name(prefix.name(), unit.name) == scale_type {
+                return Some(writable(
+                    format!("{}{}", prefix.symbol(), unit.symbols[0]),
+                    &format!("{}{}", prefix.name(), unit.name),
+                ));
             }
-
-            None
         }
     }
+
+    None
+}
+
+/// The symbol if it can be written in a unit expression (unlike "as", which is a keyword),
+/// otherwise the name
+fn writable(symbol: String, name: &str) -> String {
+    if syn::parse_str::<Ident>(&symbol).is_ok() {
+        symbol
+    } else {
+        name.to_string()
+    }
 }
 
 /// Generic visitor implementation that can be parameterized with different strategies
-- 
2.43.0


From 37d581fd7afb5c2df4828ef386908fe8f75c2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 29/49] fix: local declarators offer all storage types

---
 .../src/define_unit_declarators_macro.rs      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 3930439..0f741e0 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -261,6 +261,17 @@ impl DefineBaseUnitsInput {
             &namespace,
         );
 
+        // The remaining storage types (the literals offer u32 and u64)
+        let other_storage_types: Vec<Ident> =
+            ["i8", "i16", "i128", "u8", "u16", "u32", "u64", "u128"]
+                .iter()
+                .map(|t| Ident::new(t, proc_macro2::Span::call_site()))
+                .collect();
+        let other_rescale_fns: Vec<Ident> = other_storage_types
+            .iter()
+            .map(|t| Ident::new(&format!("rescale_{}", t), proc_macro2::Span::call_site()))
+            .collect();
+
         // Create the prefixed macro name identifier
         let prefixed_macro_name = syn::Ident::new(
             &format!("{}_quantity", namespace.to_string()),
@@ -410,6 +421,14 @@ impl DefineBaseUnitsInput {
                             whippyunits::api::rescale_usize(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, usize, #brand_type)
                         }
                     };
+                    #(
+                        ($value:expr, $unit:expr, #other_storage_types) => {
+                            {
+                                let declared_quantity = whippyunits::quantity!($value, $unit, #other_storage_types, #brand_type);
+                                whippyunits::api::#other_rescale_fns(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, #other_storage_types, #brand_type)
+                            }
+                        };
+                    )*
                 }
 
                 // Re-export the prefixed macro as quantity! for convenience
-- 
2.43.0


From f662bf690f746e923fdaa84c9f269e84eeb18da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 30/49] fix: brand-only declarators read units as quantity!
 does

Point scales lost their zero point: 300 celsius became 300 K.
---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 0f741e0..553d12d 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -987,10 +987,10 @@ impl DefineBaseUnitsInput {
                 #[macro_export]
                 macro_rules! #prefixed_macro_name {
                     ($value:expr, $unit:expr) => {
-                        <whippyunits::unit!($unit, f64, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, f64, #brand_type)
                     };
                     ($value:expr, $unit:expr, $storage_type:ty) => {
-                        <whippyunits::unit!($unit, $storage_type, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, $storage_type, #brand_type)
                     };
                 }
 
-- 
2.43.0


From b5a7890b9fd6b1bcdfa64dfaae3834dc35bf9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 31/49] fix: define_generic_dimension! accepts the documented
 symbols for temperature and luminosity

---
 proc-macros/src/define_generic_dimension_macro.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 7df8370..921341e 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -8,6 +8,16 @@ use whippyunits_core::Dimension;
 
 use crate::utils::dimension_suggestions::find_similar_dimensions;
 
+/// Look up a dimension by name or symbol, including the documented symbols of the atomic
+/// dimensions that differ from the ones shown in printed dimensions
+fn find_dimension(name_or_symbol: &str) -> Option<&'static Dimension> {
+    Dimension::find_dimension(match name_or_symbol {
+        "Θ" => "Temperature",
+        "J" => "Luminosity",
+        other => other,
+    })
+}
+
 // Parse dimension expressions like "Length / Time", "L / T", or "Mass * Length^2 / Time^2", "M * L^2 / T^2"
 pub enum DimensionExpr {
     Dimension(Ident),
@@ -115,7 +125,7 @@ impl DimensionExpr {
                 let name_or_symbol = ident.to_string();
 
                 // Look up dimension by name or symbol using direct API
-                if let Some(dim_info) = Dimension::find_dimension(&name_or_symbol) {
+                if let Some(dim_info) = find_dimension(&name_or_symbol) {
                     return (
                         dim_info.exponents.0[0], // mass
                         dim_info.exponents.0[1], // length
@@ -422,7 +432,7 @@ impl DefineGenericDimensionInput {
     /// Check if a dimension name is valid
     fn is_valid_dimension(dimension_name: &str) -> bool {
         // Check if it's a direct dimension match
-        Dimension::find_dimension(dimension_name).is_some()
+        find_dimension(dimension_name).is_some()
     }
 
     /// Generate error message with suggestions for an unknown dimension
-- 
2.43.0


From a313e9f4e0ae424fac9273201a56db9c5fb6b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 32/49] fix: relay LSP messages with any permitted header and
 any body, byte for byte

Only 'Content-Length: N' as the single header line was understood; other headers,
bodies that are not UTF-8 and malformed content ended the direction.
---
 lsp-proxy/src/main.rs | 207 +++++++++++++++++++++---------------------
 1 file changed, 103 insertions(+), 104 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..e5f1f07 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -1,7 +1,7 @@
 use anyhow::Result;
 use log::{error, info, warn};
 use std::process::{Command, Stdio};
-use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
+use tokio::io::{AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, BufReader};
 use tokio::process::{Child, Command as TokioCommand};
 
 use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
@@ -35,9 +35,9 @@ async fn main() -> Result<()> {
 
     // Set up bidirectional communication
     let stdin = tokio::io::stdin();
-    let mut stdout = tokio::io::stdout();
+    let stdout = tokio::io::stdout();
 
-    let mut ra_stdin = rust_analyzer
+    let ra_stdin = rust_analyzer
         .stdin
         .take()
         .expect("Failed to get rust-analyzer stdin");
@@ -53,81 +53,17 @@ async fn main() -> Result<()> {
     // Spawn tasks for bidirectional communication
     let proxy_clone = proxy.clone();
     let editor_to_ra = tokio::spawn(async move {
-        let mut reader = BufReader::new(stdin);
-        let mut buffer = String::new();
-
-        loop {
-            buffer.clear();
-            match read_lsp_message(&mut reader, &mut buffer).await {
-                Ok(Some(message)) => {
-                    // Process outgoing message (editor to rust-analyzer)
-                    match proxy_clone.process_outgoing(&message) {
-                        Ok(processed) => {
-                            if let Err(e) = ra_stdin.write_all(processed.as_bytes()).await {
-                                error!("Failed to write to rust-analyzer: {}", e);
-                                break;
-                            }
-                            if let Err(e) = ra_stdin.flush().await {
-                                error!("Failed to flush rust-analyzer stdin: {}", e);
-                                break;
-                            }
-                        }
-                        Err(e) => {
-                            warn!("Failed to process outgoing message: {}", e);
-                            // Forward original message on error
-                            if let Err(e) = ra_stdin.write_all(message.as_bytes()).await {
-                                error!("Failed to write to rust-analyzer: {}", e);
-                                break;
-                            }
-                        }
-                    }
-                }
-                Ok(None) => break, // EOF
-                Err(e) => {
-                    error!("Failed to read from editor: {}", e);
-                    break;
-                }
-            }
+        // Process outgoing messages (editor to rust-analyzer)
+        if let Err(e) = relay(stdin, ra_stdin, |m| proxy_clone.process_outgoing(m)).await {
+            error!("Failed to relay from editor to rust-analyzer: {}", e);
         }
     });
 
     let proxy_clone = proxy.clone();
     let ra_to_editor = tokio::spawn(async move {
-        let mut reader = BufReader::new(ra_stdout);
-        let mut buffer = String::new();
-
-        loop {
-            buffer.clear();
-            match read_lsp_message(&mut reader, &mut buffer).await {
-                Ok(Some(message)) => {
-                    // Process incoming message (rust-analyzer to editor)
-                    match proxy_clone.process_incoming(&message) {
-                        Ok(processed) => {
-                            if let Err(e) = stdout.write_all(processed.as_bytes()).await {
-                                error!("Failed to write to editor: {}", e);
-                                break;
-                            }
-                            if let Err(e) = stdout.flush().await {
-                                error!("Failed to flush editor stdout: {}", e);
-                                break;
-                            }
-                        }
-                        Err(e) => {
-                            warn!("Failed to process incoming message: {}", e);
-                            // Forward original message on error
-                            if let Err(e) = stdout.write_all(message.as_bytes()).await {
-                                error!("Failed to write to editor: {}", e);
-                                break;
-                            }
-                        }
-                    }
-                }
-                Ok(None) => break, // EOF
-                Err(e) => {
-                    error!("Failed to read from rust-analyzer: {}", e);
-                    break;
-                }
-            }
+        // Process incoming messages (rust-analyzer to editor)
+        if let Err(e) = relay(ra_stdout, stdout, |m| proxy_clone.process_incoming(m)).await {
+            error!("Failed to relay from rust-analyzer to editor: {}", e);
         }
     });
 
@@ -167,44 +103,107 @@ async fn main() -> Result<()> {
     Ok(())
 }
 
-/// Read a complete LSP message from the reader
-async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
-    reader: &mut R,
-    buffer: &mut String,
-) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
-    }
+/// A message as it came over the wire: its header block and its body, byte for byte
+struct LspFrame {
+    header: Vec<u8>,
+    body: Vec<u8>,
+    /// False for bytes that are not a message: no usable Content-Length, or cut off by the end of
+    /// the stream
+    framed: bool,
+}
 
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
-        return Ok(None);
+impl LspFrame {
+    /// Let `process` rewrite the message; whatever it leaves alone is relayed as it came
+    fn process(self, process: impl Fn(&str) -> Result<String>) -> Vec<u8> {
+        if self.framed {
+            if let Ok(body) = std::str::from_utf8(&self.body) {
+                let message = format!("Content-Length: {}\r\n\r\n{}", body.len(), body);
+                match process(&message) {
+                    Ok(processed) if processed != message => return processed.into_bytes(),
+                    Ok(_) => {}
+                    Err(e) => warn!("Failed to process message: {}", e),
+                }
+            }
+        }
+        let mut raw = self.header;
+        raw.extend_from_slice(&self.body);
+        raw
     }
+}
 
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
-
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+/// Read the next LSP message from the reader, or None at the end of the stream
+async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
+    reader: &mut R,
+) -> Result<Option<LspFrame>, anyhow::Error> {
+    // Read the header fields, up to and including the empty line that ends them
+    let mut header = Vec::new();
+    let mut content_length: Option<usize> = None;
+    loop {
+        let line_start = header.len();
+        reader.read_until(b'\n', &mut header).await?;
+        let line = &header[line_start..];
+        if !line.ends_with(b"\n") {
+            // The stream ends here
+            let frame = LspFrame {
+                header,
+                body: Vec::new(),
+                framed: false,
+            };
+            return Ok((!frame.header.is_empty()).then_some(frame));
+        }
+        let line = String::from_utf8_lossy(line);
+        let line = line.trim();
+        if line.is_empty() {
+            break;
+        }
+        if let Some((name, value)) = line.split_once(':') {
+            if name.trim().eq_ignore_ascii_case("Content-Length") {
+                content_length = value.trim().parse().ok();
+            }
+        }
+    }
 
     // Read the JSON payload
-    buffer.clear();
-    let mut json_buffer = vec![0u8; content_length];
-    reader.read_exact(&mut json_buffer).await?;
+    let mut body = Vec::new();
+    let mut framed = false;
+    if let Some(content_length) = content_length {
+        reader
+            .take(content_length as u64)
+            .read_to_end(&mut body)
+            .await?;
+        framed = body.len() == content_length;
+    }
 
-    let json_payload = String::from_utf8(json_buffer)?;
+    Ok(Some(LspFrame {
+        header,
+        body,
+        framed,
+    }))
+}
 
-    // Reconstruct the complete LSP message
-    let message = format!("Content-Length: {}\r\n\r\n{}", content_length, json_payload);
-    Ok(Some(message))
+/// Relay messages from one side to the other until the stream ends. Bytes that are not a message
+/// are passed on as they are, and so is everything after them, as message boundaries are lost.
+async fn relay<R, W>(
+    reader: R,
+    mut writer: W,
+    process: impl Fn(&str) -> Result<String>,
+) -> Result<()>
+where
+    R: AsyncRead + Unpin,
+    W: AsyncWrite + Unpin,
+{
+    let mut reader = BufReader::new(reader);
+    while let Some(frame) = read_lsp_message(&mut reader).await? {
+        let lost = !frame.framed && !frame.header.trim_ascii().is_empty();
+        writer.write_all(&frame.process(&process)).await?;
+        writer.flush().await?;
+        if lost {
+            warn!("Not an LSP message; relaying the rest of the stream unprocessed");
+            tokio::io::copy_buf(&mut reader, &mut writer).await?;
+            writer.flush().await?;
+        }
+    }
+    Ok(())
 }
 
 /// Read display configuration from environment variables
-- 
2.43.0


From 2548f416e7091cf00c5a5d1ececb3d0ad03a7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 33/49] fix: end LSP sessions cleanly

The end of the server's stderr ended the session, the editor's closing killed the
server before it could read and answer, and after the server's end the proxy waited
for the editor to write.
---
 lsp-proxy/src/main.rs | 44 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index e5f1f07..0d9e245 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -3,6 +3,7 @@ use log::{error, info, warn};
 use std::process::{Command, Stdio};
 use tokio::io::{AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, BufReader};
 use tokio::process::{Child, Command as TokioCommand};
+use tokio::time::{timeout, Duration};
 
 use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
 
@@ -67,42 +68,43 @@ async fn main() -> Result<()> {
         }
     });
 
-    // Forward stderr from rust-analyzer to our stderr
+    // Forward stderr from rust-analyzer to our stderr, byte for byte
     let stderr_forwarder = tokio::spawn(async move {
-        let mut reader = BufReader::new(ra_stderr);
-        let mut line = String::new();
-
-        loop {
-            line.clear();
-            match reader.read_line(&mut line).await {
-                Ok(0) => break, // EOF
-                Ok(_) => {
-                    eprint!("{}", line);
-                }
-                Err(e) => {
-                    error!("Failed to read rust-analyzer stderr: {}", e);
-                    break;
-                }
-            }
+        let mut ra_stderr = ra_stderr;
+        if let Err(e) = tokio::io::copy(&mut ra_stderr, &mut tokio::io::stderr()).await {
+            error!("Failed to forward rust-analyzer stderr: {}", e);
+            // Keep reading, so that rust-analyzer is not held up
+            let _ = tokio::io::copy(&mut ra_stderr, &mut tokio::io::sink()).await;
         }
     });
 
-    // Wait for any task to complete (which means something went wrong or EOF)
+    // The session ends with rust-analyzer's output. When the editor closes first, rust-analyzer
+    // sees the end of its input and gets time to read what it was sent and to answer.
+    let mut ra_to_editor = ra_to_editor;
     tokio::select! {
-        _ = editor_to_ra => info!("Editor to rust-analyzer task completed"),
-        _ = ra_to_editor => info!("Rust-analyzer to editor task completed"),
-        _ = stderr_forwarder => info!("Stderr forwarder task completed"),
+        _ = &mut ra_to_editor => info!("Rust-analyzer to editor task completed"),
+        _ = editor_to_ra => {
+            info!("Editor to rust-analyzer task completed");
+            if timeout(SHUTDOWN_GRACE, &mut ra_to_editor).await.is_err() {
+                warn!("Rust-analyzer does not end by itself");
+            }
+        }
     }
 
     // Clean up
     if let Err(e) = rust_analyzer.kill().await {
         warn!("Failed to kill rust-analyzer: {}", e);
     }
+    let _ = timeout(Duration::from_millis(200), stderr_forwarder).await;
 
     info!("LSP proxy shutting down");
-    Ok(())
+    // Do not wait for the editor: a pending read of stdin would hold up the runtime's shutdown
+    std::process::exit(0)
 }
 
+/// How long rust-analyzer may take to end after the editor has closed
+const SHUTDOWN_GRACE: Duration = Duration::from_secs(5);
+
 /// A message as it came over the wire: its header block and its body, byte for byte
 struct LspFrame {
     header: Vec<u8>,
-- 
2.43.0


From 62742a49925f7cab57928d9ad9ac84dc028191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 34/49] fix: keep every other part of rewritten LSP messages

Rewritten messages lost unknown fields and gained nulls, and messages in which nothing
was rewritten were re-serialised.
---
 lsp-proxy/src/lib.rs            | 94 ++++++++++-----------------------
 lsp-proxy/src/lsp_structures.rs | 15 ++++++
 2 files changed, 43 insertions(+), 66 deletions(-)

diff --git a/lsp-proxy/src/lib.rs b/lsp-proxy/src/lib.rs
index 3726c71..4ec2453 100644
--- a/lsp-proxy/src/lib.rs
+++ b/lsp-proxy/src/lib.rs
@@ -13,7 +13,6 @@ mod tests;
 
 use hover_processor::HoverProcessor;
 use inlay_hint_processor::InlayHintProcessor;
-use lsp_structures::LspMessage;
 
 // Re-export for public API
 pub use unit_formatter::DisplayConfig;
@@ -71,56 +70,41 @@ impl LspProxy {
         }
 
         // Parse the JSON payload only if we detected Quantity types
-        let mut lsp_msg: LspMessage = match serde_json::from_str(&json_payload) {
+        let original: Value = match serde_json::from_str(&json_payload) {
             Ok(msg) => msg,
             Err(e) => {
                 warn!("Failed to parse LSP message: {}", e);
                 return Ok(message.to_string());
             }
         };
+        let mut lsp_msg = original.clone();
 
-        // Only process specific message types we care about
-        let mut needs_processing = false;
-
-        // Check if this is a hover response
-        if let Some(result) = &lsp_msg.result {
+        // Only process specific message types we care about, and change nothing but the parts of
+        // them that describe types
+        if let Some(result) = lsp_msg.get_mut("result") {
+            // Check if this is a hover response
             if let Some(hover_content) = self.hover_processor.extract_hover_content(result) {
-                match self.hover_processor.improve_hover_content(hover_content) {
-                    improved_content => match serde_json::to_value(improved_content) {
-                        Ok(value) => {
-                            lsp_msg.result = Some(value);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            warn!("Failed to serialize hover content: {}", e);
-                        }
-                    },
-                }
+                self.hover_processor
+                    .improve_hover_content(hover_content)
+                    .write_texts(result);
             }
-        }
 
-        // Check if this is an inlay hint response (including resolve responses)
-        if let Some(result) = &lsp_msg.result {
-            if self.is_inlay_hint_response(&lsp_msg) {
-                // Only process inlay hints if they contain whippyunits types
-                if self.contains_whippyunits_in_result(result) {
-                    match self.process_inlay_hint_result(result) {
-                        Ok(improved_result) => {
-                            lsp_msg.result = Some(improved_result);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            // If processing fails, log the error but don't crash
-                            warn!("Failed to process inlay hint: {}", e);
-                            // Continue without processing - return original message
-                        }
+            // Check if this is an inlay hint response (including resolve responses)
+            // Only process inlay hints if they contain whippyunits types
+            if self.is_inlay_hint_response(result) && self.contains_whippyunits_in_result(result) {
+                match self.process_inlay_hint_result(result) {
+                    Ok(improved_result) => *result = improved_result,
+                    Err(e) => {
+                        // If processing fails, log the error but don't crash
+                        warn!("Failed to process inlay hint: {}", e);
+                        // Continue without processing - return original message
                     }
                 }
             }
         }
 
         // Only reconstruct if we actually modified something
-        if needs_processing {
+        if lsp_msg != original {
             match serde_json::to_string(&lsp_msg) {
                 Ok(new_json) => {
                     let content_length = new_json.len();
@@ -182,38 +166,16 @@ impl LspProxy {
     }
 
     /// Check if this is an inlay hint response (has result with inlay hint data)
-    fn is_inlay_hint_response(&self, lsp_msg: &LspMessage) -> bool {
-        // Check if the result contains inlay hint data structure
-        if let Some(result) = &lsp_msg.result {
-            // Check if result is an array (typical for inlay hint requests)
-            if result.is_array() {
-                // Check if any item in the array has inlay hint structure
-                if let Some(array) = result.as_array() {
-                    for item in array.iter() {
-                        if let Some(item_obj) = item.as_object() {
-                            let has_position = item_obj.contains_key("position");
-                            let has_label = item_obj.contains_key("label");
-                            if has_position && has_label {
-                                return true;
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Check if result is an object (typical for inlay hint resolve responses)
-            if result.is_object() {
-                if let Some(obj) = result.as_object() {
-                    let has_position = obj.contains_key("position");
-                    let has_label = obj.contains_key("label");
-                    if has_position && has_label {
-                        return true;
-                    }
-                }
-            }
+    fn is_inlay_hint_response(&self, result: &Value) -> bool {
+        let is_inlay_hint =
+            |hint: &Value| hint.get("position").is_some() && hint.get("label").is_some();
+
+        match result.as_array() {
+            // An array (typical for inlay hint requests)
+            Some(hints) => hints.iter().any(is_inlay_hint),
+            // An object (typical for inlay hint resolve responses)
+            None => is_inlay_hint(result),
         }
-
-        false
     }
 
     /// Check if a result contains whippyunits types
diff --git a/lsp-proxy/src/lsp_structures.rs b/lsp-proxy/src/lsp_structures.rs
index 722d71c..9b2cb04 100644
--- a/lsp-proxy/src/lsp_structures.rs
+++ b/lsp-proxy/src/lsp_structures.rs
@@ -19,6 +19,21 @@ pub struct HoverContent {
     pub range: Option<Value>,
 }
 
+impl HoverContent {
+    /// Write the texts of the hover back into the LSP result they were read from, leaving every
+    /// other part of the result as it is
+    pub fn write_texts(self, result: &mut Value) {
+        match self.contents {
+            HoverContents::Single(item) => result["contents"]["value"] = item.value.into(),
+            HoverContents::Multiple(items) => {
+                for (i, item) in items.into_iter().enumerate() {
+                    result["contents"][i]["value"] = item.value.into();
+                }
+            }
+        }
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum HoverContents {
-- 
2.43.0


From 6c0a9536344ed15cb2741edf7361b7c06599ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 35/49] fix: show a unit only for concrete quantity types, and
 never as definite when part of it is unknown

---
 lsp-proxy/src/unit_formatter.rs | 587 +++++++++-----------------------
 1 file changed, 157 insertions(+), 430 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..5b1b2eb 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,4 +1,3 @@
-use syn::{parse_str, TypePath};
 use whippyunits_core::{
     dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
 };
@@ -132,467 +131,174 @@ impl UnitFormatter {
         unicode: bool,
         is_inlay_hint: bool,
     ) -> String {
-        if text.contains("Quantity<") && text.contains("Scale") {
-            // First pass: find all Quantity<Scale types and their positions
-            struct QuantityMatch {
-                start: usize,
-                end: usize,
-                formatted: String,
-            }
-
-            let mut matches = Vec::new();
-            let mut i = 0;
-
-            while i < text.len() {
-                // Search for "Quantity<Scale" starting from position i
-                if let Some(relative_start) = text[i..].find("Quantity<Scale") {
-                    let start_pos = i + relative_start;
-
-                    // Count brackets to find the matching end of this Quantity type
-                    // start_pos points to "Q" in "Quantity<Scale"
-                    // start_pos + 8 points to the '<' after "Quantity"
-                    let quantity_start = start_pos + 8; // Position of the '<'
-                                                        // Start bracket_count at 1 because we're already inside Quantity<
-                                                        // Start j after the '<' so we don't count it again
-                    let mut bracket_count = 1;
-                    let mut found_end = false;
-                    // Use byte indices, not char indices, to match the string slicing
-                    let mut byte_pos = quantity_start + 1; // Start after the opening '<'
-                    let text_bytes = text.as_bytes();
-
-                    while byte_pos < text_bytes.len() {
-                        match text_bytes[byte_pos] {
-                            b'<' => bracket_count += 1,
-                            b'>' => {
-                                bracket_count -= 1;
-                                if bracket_count == 0 {
-                                    found_end = true;
-                                    break;
-                                }
-                            }
-                            _ => {}
-                        }
-                        byte_pos += 1;
-                    }
-
-                    if found_end {
-                        let actual_end = byte_pos + 1; // +1 to include the '>'
-                                                       // Ensure we don't go past the end of the string
-                        let actual_end = actual_end.min(text.len());
-                        let quantity_type = &text[start_pos..actual_end];
-
-                        let formatted = self.format_new_quantity_type(
-                            quantity_type,
-                            verbose,
-                            unicode,
-                            is_inlay_hint,
-                        );
-
-                        matches.push(QuantityMatch {
-                            start: start_pos,
-                            end: actual_end,
-                            formatted,
-                        });
-
-                        // Continue searching from after this Quantity type
-                        i = actual_end;
-                    } else {
-                        // Bracket counting failed, stop searching
-                        break;
-                    }
-                } else {
-                    // No more Quantity<Scale found
-                    break;
-                }
-            }
-
-            // Second pass: replace all matches from end to start to preserve positions
-            if matches.is_empty() {
-                return text.to_string();
-            }
-
-            let mut result = text.to_string();
-            // Replace from end to start to preserve positions
-            for m in matches.iter().rev() {
-                result.replace_range(m.start..m.end, &m.formatted);
+        const QUANTITY: &str = "Quantity<";
+
+        let mut result = String::with_capacity(text.len());
+        let mut rest = text;
+
+        while let Some(start) = rest.find("Quantity<Scale") {
+            let (before, candidate) = rest.split_at(start);
+            result.push_str(before);
+
+            // The name of another type may end in "Quantity"
+            let is_whole_name = !result
+                .chars()
+                .next_back()
+                .is_some_and(|ch| ch.is_alphanumeric() || ch == '_');
+            let quantity = split_generic_arguments(&candidate[QUANTITY.len()..])
+                .filter(|_| is_whole_name)
+                .and_then(|(arguments, length)| {
+                    let params = self.parse_new_quantity_params(&arguments)?;
+                    Some((params, QUANTITY.len() + length))
+                });
+
+            if let Some((params, length)) = quantity {
+                result.push_str(&self.format_new_quantity_type(
+                    &params,
+                    verbose,
+                    unicode,
+                    is_inlay_hint,
+                ));
+                rest = &candidate[length..];
+            } else {
+                // Not a concrete quantity type: leave it as it is, apart from any in its arguments
+                result.push_str(QUANTITY);
+                rest = &candidate[QUANTITY.len()..];
             }
-
-            return result;
         }
 
-        // If we reach here, no new format was found, return original text
-        text.to_string()
+        result.push_str(rest);
+        result
     }
 
     /// Format the new Quantity type with Scale<...> and Dimension<...> structs
     fn format_new_quantity_type(
         &self,
-        full_match: &str,
+        params: &QuantityParams,
         verbose: bool,
-        _unicode: bool,
+        unicode: bool,
         is_inlay_hint: bool,
     ) -> String {
         use whippyunits::print::prettyprint::pretty_print_quantity_type;
 
-        // Check if this is a generic type definition (contains parameter names like Scale, Dimension, T)
-        // rather than a concrete instantiation with actual values
-        if self.is_generic_type_definition(full_match) {
-            // Pass through generic definitions unchanged
-            return full_match.to_string();
-        }
-
-        // Parse the new format: Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>, T>
-        if let Some(params) = self.parse_new_quantity_params(full_match) {
-            // Check if this is a wholly unresolved type (all parameters are sentinel values)
-            let all_dimensions_unresolved = params.dimensions.0.iter().all(|&exp| exp == i16::MIN);
-            let all_scales_unresolved = params.scale.0.iter().all(|&exp| exp == i16::MIN);
-
-            // Get Brand name for passing to prettyprint function
-            let brand_name = params.brand.as_deref();
-
-            if all_dimensions_unresolved && all_scales_unresolved {
-                // Format as wholly unresolved type
-                let mut result = format!("Quantity<?, {}>", params.generic_type);
-                if let Some(brand) = brand_name {
-                    if brand != "()" {
-                        result = format!("{}, {}>", &result[..result.len() - 1], brand);
-                    }
-                }
-                return result;
-            }
-
-            // Check if this is a dimensionless quantity (all dimensions are zero)
-            if params.dimensions == DynDimensionExponents::ZERO
-                && params.scale == ScaleExponents::IDENTITY
-            {
-                // Format as dimensionless quantity
-                let mut result = format!("Quantity<1, {}>", params.generic_type);
-                if let Some(brand) = brand_name {
-                    if brand != "()" {
-                        result = format!("{}, {}>", &result[..result.len() - 1], brand);
-                    }
-                }
-                return result;
-            }
-            if is_inlay_hint {
-                // Use the main pretty print function with verbose=false to get the unit literal
-                let full_output = pretty_print_quantity_type(
-                    params.dimensions,
-                    params.scale,
-                    &params.generic_type,
-                    false, // Non-verbose mode for inlay hints
-                    false, // Don't show type in brackets
-                    brand_name,
-                );
-
-                // Check if the pretty print function returned just "?" for wholly unresolved types
-                if full_output == "?" {
-                    let mut result = format!("Quantity<?, {}>", params.generic_type);
-                    if let Some(brand) = brand_name {
-                        if brand != "()" {
-                            result = format!("{}, {}>", &result[..result.len() - 1], brand);
-                        }
-                    }
-                    return result;
-                }
-
-                full_output
-            } else {
-                // Use the prettyprint API with configurable parameters
-                let result = pretty_print_quantity_type(
-                    params.dimensions,
-                    params.scale,
-                    &params.generic_type,
-                    verbose,
-                    false, // show_type_in_brackets = false for pretty printer
-                    brand_name,
-                );
-
-                // Check if the pretty print function returned just "?" for wholly unresolved types
-                if result == "?" {
-                    let mut formatted = format!("Quantity<?, {}>", params.generic_type);
-                    if let Some(brand) = brand_name {
-                        if brand != "()" {
-                            formatted =
-                                format!("{}, {}>", &formatted[..formatted.len() - 1], brand);
-                        }
-                    }
-                    return formatted;
-                }
+        // The type parameter may itself contain quantities
+        let generic_type =
+            self.format_quantity_types(&params.generic_type, verbose, unicode, is_inlay_hint);
+        let brand_suffix = match params.brand.as_deref() {
+            Some(brand) if brand != "()" => format!(", {}", brand),
+            _ => String::new(),
+        };
+        let is_unresolved = |exponents: &[i16]| exponents.contains(&i16::MIN);
+        let unresolved = format!("Quantity<?, {}{}>", generic_type, brand_suffix);
 
-                result
-            }
-        } else {
-            // If parsing fails, return the original
-            full_match.to_string()
+        // Check if the dimensions are wholly unresolved (all parameters are sentinel values)
+        if params.dimensions.0.iter().all(|&exp| exp == i16::MIN) {
+            return unresolved;
         }
-    }
 
-    /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
-    fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
-        // Parse Scale parameters - handle all possible combinations of defaulted parameters
-        let scale = if quantity_type.contains("Scale<") {
-            // Any Scale format with parameters - handle all combinations of defaulted values
-            let (p2, p3, p5, pi) = self.parse_scale_general_format(quantity_type)?;
-            ScaleExponents([p2, p3, p5, pi])
-        } else if quantity_type.contains("Scale,") {
-            // Truncated format: Scale, or Scale> or Scale, Dimension (all parameters default to 0)
+        // An unresolved scale can only be left out of a name that is marked as unresolved anyway
+        let scale = if !is_unresolved(&params.scale.0) {
+            params.scale
+        } else if is_unresolved(&params.dimensions.0) {
             ScaleExponents::IDENTITY
         } else {
-            // Unknown format
-            return None;
+            return unresolved;
         };
 
-        // Parse Dimension parameters - handle both full format and truncated format
-        let dimensions = if quantity_type.contains("Dimension<_M<") && quantity_type.contains("_A<")
-        {
-            // Full format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_full_format(quantity_type)?;
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        } else if quantity_type.contains("Dimension,") || quantity_type.contains("Dimension>") {
-            // Fully defaulted Dimension (dimensionless): Dimension, T or Dimension> T
-            DynDimensionExponents::ZERO
-        } else {
-            // Truncated format: parse only the non-zero parameters
-            // Look for patterns like Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_truncated_format(quantity_type);
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        };
+        // Check if this is a dimensionless quantity (all dimensions are zero)
+        if params.dimensions == DynDimensionExponents::ZERO && scale == ScaleExponents::IDENTITY {
+            return format!("Quantity<1, {}{}>", generic_type, brand_suffix);
+        }
+
+        // Use the prettyprint API, in non-verbose mode for inlay hints to get the unit literal
+        pretty_print_quantity_type(
+            params.dimensions,
+            scale,
+            &generic_type,
+            verbose && !is_inlay_hint,
+            false, // show_type_in_brackets = false for pretty printer
+            params.brand.as_deref(),
+        )
+    }
+
+    /// Parse the arguments of the new Quantity type format:
+    /// Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>, T, Brand>
+    ///
+    /// Trailing arguments may be left out at every level. Returns None for anything that is not a
+    /// concrete type, such as a generic definition.
+    fn parse_new_quantity_params(&self, arguments: &[&str]) -> Option<QuantityParams> {
+        let is_definition = |argument: &&str| argument.split('<').next().unwrap().contains('=');
+        if !(2..=4).contains(&arguments.len()) || arguments.iter().any(is_definition) {
+            return None;
+        }
 
         // Don't apply base scale offset here - let the prettyprint functions handle it
         // The prettyprint functions already have the correct base scale offset logic
-        let adjusted_scale = scale;
-
-        // Extract the actual generic type parameter and brand from the type string
-        let (generic_type, brand) = self.extract_generic_type_and_brand(quantity_type);
+        let scale = self.parse_exponents(arguments[0], "Scale", ["_2", "_3", "_5", "_Pi"])?;
+        let dimensions = self.parse_exponents(
+            arguments[1],
+            "Dimension",
+            ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"],
+        )?;
 
         Some(QuantityParams {
-            dimensions,
-            scale: adjusted_scale,
-            generic_type,
-            brand,
+            dimensions: DynDimensionExponents(dimensions),
+            scale: ScaleExponents(scale),
+            generic_type: arguments.get(2).unwrap_or(&"f64").to_string(),
+            brand: arguments.get(3).map(|brand| brand.to_string()),
         })
     }
 
-    /// Parse general Scale format: Scale<_2[<P2>], _3[<P3>], _5[<P5>], _Pi[<PI>]>
-    /// Handles all possible combinations of defaulted parameters
-    /// Parameters can be either _2<value> (explicit) or _2 (defaulted to 0)
-    fn parse_scale_general_format(&self, quantity_type: &str) -> Option<(i16, i16, i16, i16)> {
-        let scale_start = quantity_type.find("Scale<")?;
-        let scale_content = &quantity_type[scale_start + 6..]; // Skip "Scale<"
-
-        // Find the end of the Scale struct
-        let scale_end = self.find_matching_bracket(scale_content, 0)?;
-        let scale_params = &scale_content[..scale_end];
-
-        // Parse each parameter, handling both explicit values and defaults
-        let p2 = self.parse_scale_param_with_default(scale_params, "_2");
-        let p3 = self.parse_scale_param_with_default(scale_params, "_3");
-        let p5 = self.parse_scale_param_with_default(scale_params, "_5");
-        let pi = self.parse_scale_param_with_default(scale_params, "_Pi");
-
-        Some((p2, p3, p5, pi))
-    }
-
-    /// Parse a scale parameter that may be either explicit (_2<value>) or defaulted (_2)
-    fn parse_scale_param_with_default(&self, content: &str, prefix: &str) -> i16 {
-        // First try to find explicit value: _2<value>
-        if let Some(value) = self.parse_scale_param(content, &format!("{}<", prefix)) {
-            value
-        } else {
-            // Check if parameter exists in defaulted form: _2 (without <value>)
-            if content.contains(&format!("{},", prefix)) || content.ends_with(prefix) {
-                0 // Default value
-            } else {
-                0 // Parameter not found, default to 0
-            }
-        }
-    }
-
-    /// Parse full Dimension format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-    fn parse_dimension_full_format(
-        &self,
-        quantity_type: &str,
-    ) -> Option<(i16, i16, i16, i16, i16, i16, i16, i16)> {
-        let dimension_start = quantity_type.find("Dimension<_M<")?;
-        let dimension_content = &quantity_type[dimension_start + 9..]; // Skip "Dimension<"
-
-        // Parse individual parameters directly from the dimension content
-        // We don't need to find the end of the Dimension struct - we can parse each parameter individually
-        let mass = self.parse_dimension_param(dimension_content, "_M<")?;
-        let length = self.parse_dimension_param(dimension_content, "_L<")?;
-        let time = self.parse_dimension_param(dimension_content, "_T<")?;
-        let current = self.parse_dimension_param(dimension_content, "_I<")?;
-        let temp = self.parse_dimension_param(dimension_content, "_Θ<")?;
-        let amount = self.parse_dimension_param(dimension_content, "_N<")?;
-        let lum = self.parse_dimension_param(dimension_content, "_J<")?;
-        let angle = self.parse_dimension_param(dimension_content, "_A<")?;
-
-        Some((mass, length, time, current, temp, amount, lum, angle))
-    }
-
-    /// Parse truncated Dimension format: Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-    fn parse_dimension_truncated_format(
+    /// Parse a list of exponents like "Scale<_2<5>, _3, _5<_>>", whose parameters are either
+    /// explicit (_2<5>), defaulted to 0 (_3, or missing at the end) or unresolved (_5<_> or _)
+    fn parse_exponents<const N: usize>(
         &self,
-        quantity_type: &str,
-    ) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
-        let mut mass_exp = 0;
-        let mut length_exp = 0;
-        let mut time_exp = 0;
-        let mut electric_current_exp = 0;
-        let mut temperature_exp = 0;
-        let mut amount_of_substance_exp = 0;
-        let mut luminous_intensity_exp = 0;
-        let mut angle_exp = 0;
-
-        // Parse individual dimension parameters that are present
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_M<") {
-            mass_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_L<") {
-            length_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_T<") {
-            time_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_I<") {
-            electric_current_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_Θ<") {
-            temperature_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_N<") {
-            amount_of_substance_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_J<") {
-            luminous_intensity_exp = value;
+        text: &str,
+        name: &str,
+        parameters: [&str; N],
+    ) -> Option<[i16; N]> {
+        if text == "_" {
+            return Some([i16::MIN; N]);
         }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_A<") {
-            angle_exp = value;
+        let mut exponents = [0; N];
+        let after_name = text.strip_prefix(name)?;
+        if after_name.is_empty() {
+            return Some(exponents);
         }
-
-        (
-            mass_exp,
-            length_exp,
-            time_exp,
-            electric_current_exp,
-            temperature_exp,
-            amount_of_substance_exp,
-            luminous_intensity_exp,
-            angle_exp,
-        )
-    }
-
-    /// Parse a scale parameter like "_2<5>" and return the value
-    fn parse_scale_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        Some(self.parse_parameter(param_value))
-    }
-
-    /// Parse a dimension parameter like "_M<1>" and return the value
-    fn parse_dimension_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        let result = self.parse_parameter(param_value);
-        Some(result)
-    }
-
-    /// Find the matching closing bracket for a given opening bracket
-    fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
-        let mut depth = 1;
-        let mut i = start_pos;
-
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
-                    depth -= 1;
-                    if depth == 0 {
-                        return Some(i);
-                    }
-                }
-                _ => {}
-            }
-            i += 1;
+        let after_bracket = after_name.strip_prefix('<')?;
+        let (arguments, length) = split_generic_arguments(after_bracket)?;
+        if length != after_bracket.len() {
+            return None;
         }
-        None
-    }
-
-    /// Extract both the generic type parameter and brand from a Quantity type string
-    /// Returns (generic_type, brand) where brand is Some(...) if present, None otherwise
-    fn extract_generic_type_and_brand(&self, quantity_type: &str) -> (String, Option<String>) {
-        // Parse as a Rust type using syn - it handles const generics reliably
-        if let Some(quantity_start) = quantity_type.find("Quantity<") {
-            let quantity_content = &quantity_type[quantity_start..];
-
-            match parse_str::<TypePath>(quantity_content) {
-                Ok(type_path) => {
-                    // Extract generic arguments
-                    if let Some(segment) = type_path.path.segments.last() {
-                        if let syn::PathArguments::AngleBracketed(args) = &segment.arguments {
-                            let args_vec: Vec<_> = args.args.iter().collect();
-
-                            // We expect: [Scale, Dimension<...>, T, Brand?]
-                            // Scale is at index 0, Dimension at 1, type T at 2, Brand at 3 (if present)
-
-                            if args_vec.len() >= 3 {
-                                // Extract the type parameter (index 2)
-                                let type_arg = &args_vec[2];
-                                let generic_type = match type_arg {
-                                    syn::GenericArgument::Type(ty) => {
-                                        quote::quote!(#ty).to_string()
-                                    }
-                                    _ => quote::quote!(#type_arg).to_string(),
-                                };
-
-                                // Extract Brand if present (index 3)
-                                let brand = if args_vec.len() >= 4 {
-                                    let brand_arg = &args_vec[3];
-                                    match brand_arg {
-                                        syn::GenericArgument::Type(ty) => {
-                                            Some(quote::quote!(#ty).to_string())
-                                        }
-                                        _ => Some(quote::quote!(#brand_arg).to_string()),
-                                    }
-                                } else {
-                                    None
-                                };
-
-                                return (
-                                    generic_type.trim().to_string(),
-                                    brand.map(|s| s.trim().to_string()),
-                                );
-                            } else if args_vec.len() == 2 {
-                                // Only Scale and Dimension, type defaults to f64
-                                return ("f64".to_string(), None);
-                            }
-                        }
+        let mut next = 0;
+        for argument in arguments {
+            let (parameter, exponent) = if argument == "_" {
+                (next, i16::MIN)
+            } else {
+                let (name, value) = argument.split_at(argument.find('<').unwrap_or(argument.len()));
+                let exponent = match value {
+                    "" => 0, // Default value
+                    _ => {
+                        self.parse_parameter(value.strip_prefix('<')?.strip_suffix('>')?.trim())?
                     }
-                }
-                Err(_) => {
-                    // syn parsing failed - this shouldn't happen for valid Rust types
-                    // but default to f64 if it does
-                }
+                };
+                (parameters.iter().position(|&p| p == name)?, exponent)
+            };
+            if parameter < next || parameter >= N {
+                return None;
             }
+            exponents[parameter] = exponent;
+            next = parameter + 1;
         }
-
-        // Default fallback if parsing fails
-        ("f64".to_string(), None)
+        Some(exponents)
     }
 
     /// Parse a parameter that could be a number or underscore placeholder
-    fn parse_parameter(&self, param: &str) -> i16 {
+    fn parse_parameter(&self, param: &str) -> Option<i16> {
         if param == "_" {
-            i16::MIN // Unknown placeholder
+            Some(i16::MIN) // Unknown placeholder
         } else {
-            param.parse().unwrap_or(0)
+            param.parse().ok()
         }
     }
 
@@ -700,14 +406,6 @@ impl UnitFormatter {
 
         String::new()
     }
-
-    /// Check if this is a generic type definition rather than a concrete instantiation
-    /// Specifically looks for the pattern "T = f64" which indicates a generic type definition
-    fn is_generic_type_definition(&self, text: &str) -> bool {
-        // Only detect the specific case where we have "T = f64" which reliably indicates
-        // a generic type definition like "Quantity<Scale, Dimension, T = f64>"
-        text.contains("T = f64")
-    }
 }
 
 #[derive(Debug)]
@@ -717,3 +415,32 @@ struct QuantityParams {
     generic_type: String,
     brand: Option<String>,
 }
+
+/// Split the comma-separated generic arguments at the start of a text, which follows their opening
+/// bracket. Returns the arguments and where the text after their closing bracket starts.
+fn split_generic_arguments(text: &str) -> Option<(Vec<&str>, usize)> {
+    let mut arguments = Vec::new();
+    let mut start = 0;
+    let mut depth = 0;
+    let mut previous = ' ';
+
+    for (i, ch) in text.char_indices() {
+        match ch {
+            '<' | '(' | '[' => depth += 1,
+            '>' if previous == '-' => {} // The arrow of a function type
+            '>' if depth == 0 => {
+                arguments.push(text[start..i].trim());
+                return Some((arguments, i + 1));
+            }
+            '>' | ')' | ']' if depth == 0 => return None,
+            '>' | ')' | ']' => depth -= 1,
+            ',' if depth == 0 => {
+                arguments.push(text[start..i].trim());
+                start = i + 1;
+            }
+            _ => {}
+        }
+        previous = ch;
+    }
+    None
+}
-- 
2.43.0


From 3438222993a2ab045b9a6ff1740ad32067bca511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 36/49] fix: change nothing in a hover but the types in its
 code blocks, and the types in all of them

---
 lsp-proxy/src/unit_formatter.rs | 96 +++++++++++++++------------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 5b1b2eb..82e65bf 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -58,64 +58,41 @@ impl UnitFormatter {
         }
 
         // Work within the existing markdown structure
-        // Find the first code block and replace its content
-        if let Some(code_start) = original_text.find("```rust") {
-            let after_code_start = &original_text[code_start + 7..]; // Skip "```rust"
-            if let Some(code_end) = after_code_start.find("```") {
-                let code_content = &after_code_start[..code_end];
-
-                // Format the code content
-                let formatted_content =
-                    self.format_quantity_types(code_content, config.verbose, config.unicode, false);
-
-                // Check if we actually transformed anything
-                let was_transformed = formatted_content != code_content;
-
-                // Extract raw type from the original code content if we transformed it
-                let raw_type = if was_transformed && config.include_raw {
-                    self.extract_raw_type_from_hover(code_content)
-                } else {
-                    String::new()
-                };
-
-                // Replace the content in the existing code block
-                let before_code = &original_text[..code_start + 7]; // Include "```rust"
-                let after_code_block = &after_code_start[code_end + 3..]; // Skip closing ```
-
-                let result = if !raw_type.is_empty() {
-                    // Insert raw section after the first --- separator
-                    if let Some(separator_pos) = after_code_block.find("---") {
-                        let after_separator = &after_code_block[separator_pos..];
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n{}",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type,
-                            after_separator
-                        )
-                    } else {
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type
-                        )
-                    }
-                } else {
-                    format!(
-                        "{}\n{}\n```{}",
-                        before_code,
-                        formatted_content.trim(),
-                        after_code_block
-                    )
-                };
+        // Replace the content of the code blocks, and nothing else
+        if split_at_code_block(original_text).is_none() {
+            // Fallback to normal formatting if we can't parse the markdown structure
+            return self.format_quantity_types(text, config.verbose, config.unicode, false);
+        }
 
-                return result;
+        let mut result = String::with_capacity(original_text.len());
+        let mut rest = original_text;
+        let mut raw_shown = !config.include_raw;
+
+        while let Some((before_code, code_content, after_code)) = split_at_code_block(rest) {
+            let formatted_content =
+                self.format_quantity_types(code_content, config.verbose, config.unicode, false);
+
+            result.push_str(before_code);
+            result.push_str(&formatted_content);
+            result.push_str(CODE_END);
+
+            // Insert a raw section after the first code block we transformed
+            if !raw_shown && formatted_content != code_content {
+                let raw_type = self.extract_raw_type_from_hover(code_content);
+                if !raw_type.is_empty() {
+                    result.push_str(&format!(
+                        "\n\n---\nRaw:\n\n```rust\n{}\n```",
+                        raw_type.trim()
+                    ));
+                }
+                raw_shown = true;
             }
+
+            rest = after_code;
         }
 
-        // Fallback to normal formatting if we can't parse the markdown structure
-        self.format_quantity_types(text, config.verbose, config.unicode, false)
+        result.push_str(rest);
+        result
     }
 
     /// Format whippyunits types for inlay hints (compact format)
@@ -416,6 +393,17 @@ struct QuantityParams {
     brand: Option<String>,
 }
 
+const CODE_START: &str = "```rust";
+const CODE_END: &str = "```";
+
+/// Split a markdown text at its first code block, into the text up to its content, the content, and
+/// the text after the closing fence
+fn split_at_code_block(text: &str) -> Option<(&str, &str, &str)> {
+    let (before_code, from_code) = text.split_at(text.find(CODE_START)? + CODE_START.len());
+    let (code_content, from_end) = from_code.split_at(from_code.find(CODE_END)?);
+    Some((before_code, code_content, &from_end[CODE_END.len()..]))
+}
+
 /// Split the comma-separated generic arguments at the start of a text, which follows their opening
 /// bracket. Returns the arguments and where the text after their closing bracket starts.
 fn split_generic_arguments(text: &str) -> Option<(Vec<&str>, usize)> {
-- 
2.43.0


From cb16a11baf1119243bfe5a52696442a5106ff838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 37/49] fix: find the raw type of a hover in any text

---
 lsp-proxy/src/unit_formatter.rs | 98 +++------------------------------
 1 file changed, 9 insertions(+), 89 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 82e65bf..15ccdec 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -287,96 +287,16 @@ impl UnitFormatter {
         if let Some(start) = hover_text.find(": ") {
             let after_colon = &hover_text[start + 2..];
 
-            // Find where the type name ends (either at '<' for generics, or at whitespace/newline)
-            let type_end = after_colon
+            // Find where the type name ends (either at '<' for generics, or at the end of the line)
+            if let Some((type_end, '<')) = after_colon
                 .char_indices()
-                .find(|(_, ch)| *ch == '<' || *ch == '\n' || *ch == '\r')
-                .map(|(i, _)| i);
-
-            if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
-                    // We found a generic type, extract the full declaration
-                    // Find the start of the variable declaration by looking backwards for 'let'
-                    let mut var_start = start;
-                    let mut found_let = false;
-
-                    // Look backwards to find the start of the declaration
-                    while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
-                        if char_before.is_whitespace() {
-                            // Check if we've found "let" or "let mut"
-                            let potential_start = var_start;
-                            let before_whitespace = &hover_text[..potential_start];
-
-                            // Look for "let" at the end of the string
-                            if before_whitespace.ends_with("let") {
-                                // Check if there's whitespace before "let" or if it's at the start
-                                let let_start = before_whitespace.len() - 3;
-                                if let_start == 0
-                                    || hover_text[let_start - 1..let_start]
-                                        .chars()
-                                        .next()
-                                        .unwrap()
-                                        .is_whitespace()
-                                {
-                                    var_start = let_start;
-                                    found_let = true;
-                                    break;
-                                }
-                            }
-                        }
-                        var_start -= 1;
-                    }
-
-                    if !found_let {
-                        // Fallback: find the start of the variable name
-                        while var_start > 0
-                            && !hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start -= 1;
-                        }
-                        if var_start > 0
-                            && hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start += 1; // Skip the whitespace
-                        }
-                    }
-
-                    // Find the end of the type declaration by matching brackets
-                    let type_start = start + ": ".len();
-                    let after_type = &hover_text[type_start..];
-
-                    // Find the end of the generic type by looking for the closing >
-                    let mut bracket_count = 0;
-                    let mut end_pos = 0;
-
-                    for (i, ch) in after_type.char_indices() {
-                        match ch {
-                            '<' => bracket_count += 1,
-                            '>' => {
-                                bracket_count -= 1;
-                                if bracket_count == 0 {
-                                    end_pos = i + 1;
-                                    break;
-                                }
-                            }
-                            _ => {}
-                        }
-                    }
-
-                    if end_pos > 0 {
-                        let full_declaration = &hover_text[var_start..start + ": ".len() + end_pos];
-                        return full_declaration.to_string();
-                    }
+                .find(|(_, ch)| matches!(ch, '<' | '\n' | '\r'))
+            {
+                // We found a generic type, extract the full declaration up to its closing bracket
+                let arguments_start = type_end + 1;
+                if let Some((_, length)) = split_generic_arguments(&after_colon[arguments_start..])
+                {
+                    return hover_text[..start + 2 + arguments_start + length].to_string();
                 }
             }
         }
-- 
2.43.0


From d010de1a6be9956842a4356deaeb776446912aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 38/49] fix: no hover text makes the trait signature
 simplification panic

---
 lsp-proxy/src/hover_processor.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lsp-proxy/src/hover_processor.rs b/lsp-proxy/src/hover_processor.rs
index 5279738..5e25431 100644
--- a/lsp-proxy/src/hover_processor.rs
+++ b/lsp-proxy/src/hover_processor.rs
@@ -261,7 +261,9 @@ impl HoverProcessor {
                             (None, None, None) => search_text.len(),
                         };
 
-                    let trait_type = &text[for_start + "for ".len()..type_end];
+                    let trait_type = text
+                        .get(for_start + "for ".len()..type_end)
+                        .unwrap_or_default();
 
                     // For quantity-quantity operations, show the actual types
                     let simplified = format!("impl {} for {}", trait_name, trait_type);
@@ -323,10 +325,11 @@ impl HoverProcessor {
                 // Extract the type after the trait
                 // Handle both "Mul<f64> for" and "Mul for" patterns
                 let trait_type = if text[trait_start..].starts_with(&trait_pattern1) {
-                    &text[trait_start + trait_pattern1.len() + 1..type_end] // +1 for space
+                    text.get(trait_start + trait_pattern1.len() + 1..type_end) // +1 for space
                 } else {
-                    &text[trait_start + trait_pattern2.len() + 1..type_end] // +1 for space
-                };
+                    text.get(trait_start + trait_pattern2.len() + 1..type_end) // +1 for space
+                }
+                .unwrap_or_default();
 
                 // Create simplified signature for scalar operations
                 let simplified = format!("impl {}<f64> for {}", trait_name, trait_type);
@@ -376,7 +379,9 @@ impl HoverProcessor {
                     };
 
                 // Extract the type after the trait
-                let trait_type = &text[trait_start + trait_pattern.len() + 1..type_end]; // +1 for space
+                let trait_type = text
+                    .get(trait_start + trait_pattern.len() + 1..type_end) // +1 for space
+                    .unwrap_or_default();
 
                 // Create simplified signature for reverse scalar operations
                 let simplified = format!("impl {}<Quantity<...>> for {}", trait_name, trait_type);
-- 
2.43.0


From a260d762895e7c8340cb383d530631e440a15615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 39/49] fix: keep everything around the quantity types of an
 inlay hint, and convert all of them

---
 lsp-proxy/src/inlay_hint_processor.rs | 162 ++++++++++----------------
 1 file changed, 62 insertions(+), 100 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..bee0056 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -113,116 +113,78 @@ impl InlayHintProcessor {
 
     /// Convert a whippyunits inlay hint to pretty format
     pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<()> {
-        // Find the Quantity part
-        let mut quantity_part_index = None;
-        for (i, part) in label_array.iter().enumerate() {
-            if let Some(value) = part.get("value") {
-                if let Some(text) = value.as_str() {
-                    if text == "Quantity" {
-                        quantity_part_index = Some(i);
-                        break;
-                    }
-                }
+        let mut quantity_idx = 0;
+        while quantity_idx < label_array.len() {
+            if label_array[quantity_idx]["value"] == "Quantity" {
+                self.convert_quantity_part(label_array, quantity_idx);
             }
+            quantity_idx += 1;
         }
+        Ok(())
+    }
 
-        // If we found the Quantity part, collect all the generic parameters
-        if let Some(quantity_idx) = quantity_part_index {
-            // Collect all parts after Quantity that form the generic parameters
-            let mut generic_parts = Vec::new();
-            let mut bracket_depth = 0;
-            let mut found_opening_bracket = false;
-
-            for i in (quantity_idx + 1)..label_array.len() {
-                if let Some(value) = label_array[i].get("value") {
-                    if let Some(text) = value.as_str() {
-                        // Track bracket depth to know when we've reached the end
-                        for ch in text.chars() {
-                            if ch == '<' {
-                                bracket_depth += 1;
-                                found_opening_bracket = true;
-                            } else if ch == '>' {
-                                bracket_depth -= 1;
-                            }
-                        }
-
-                        generic_parts.push(text);
-
-                        // Stop when we've closed all brackets
-                        if found_opening_bracket && bracket_depth == 0 {
-                            break;
-                        }
-                    }
-                }
+    /// Convert the Quantity part at an index, and the generic parameters in the parts after it
+    fn convert_quantity_part(&self, label_array: &mut Vec<Value>, quantity_idx: usize) {
+        let first_param = quantity_idx + 1;
+        let text_of = |part: &Value| part["value"].as_str().unwrap_or_default().to_string();
+
+        // Collect the parts after Quantity that form the generic parameters, and find where they
+        // end in the last of those parts
+        let mut generic_params = String::new();
+        let mut trailing_text = None;
+        let mut bracket_depth = 0;
+        let mut previous = ' ';
+        let mut end = first_param;
+
+        while trailing_text.is_none() && end < label_array.len() {
+            let text = text_of(&label_array[end]);
+            if generic_params.is_empty() && !text.starts_with('<') {
+                return;
             }
-
-            if !generic_parts.is_empty() {
-                // Create the complete generic parameters string
-                let generic_params = generic_parts.join("");
-
-                // Construct the full type string
-                let full_type = format!("Quantity{}", generic_params);
-
-                // For inlay hints, use the full Quantity<unit, type> format
-                let pretty_type = self
-                    .formatter
-                    .format_types_inlay_hint(&full_type, &self.display_config);
-
-                // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
-                let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
-
-                // Replace the "Quantity" part with the pretty version
-                // Preserve the location information if it exists
-                let quantity_part = &label_array[quantity_idx];
-                let mut new_quantity_part = json!({
-                    "value": pretty_type
-                });
-
-                // Copy over the location if it exists
-                if let Some(location) = quantity_part.get("location") {
-                    new_quantity_part["location"] = location.clone();
+            for (i, ch) in text.char_indices() {
+                match ch {
+                    '<' => bracket_depth += 1,
+                    '>' if previous != '-' => bracket_depth -= 1,
+                    _ => {}
                 }
+                previous = ch;
+                if bracket_depth == 0 {
+                    let (params, rest) = text.split_at(i + ch.len_utf8());
+                    generic_params.push_str(params);
+                    trailing_text = Some(rest.to_string());
+                    break;
+                }
+            }
+            if trailing_text.is_none() {
+                generic_params.push_str(&text);
+            }
+            end += 1;
+        }
+        let Some(trailing_text) = trailing_text else {
+            return;
+        };
 
-                label_array[quantity_idx] = new_quantity_part;
-
-                // Remove all the generic parameters parts
-                let mut parts_to_remove = Vec::new();
-                let mut bracket_depth = 0;
-                let mut found_opening_bracket = false;
-
-                for i in (quantity_idx + 1)..label_array.len() {
-                    if let Some(value) = label_array[i].get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Track bracket depth to know when we've reached the end
-                            for ch in text.chars() {
-                                if ch == '<' {
-                                    bracket_depth += 1;
-                                    found_opening_bracket = true;
-                                } else if ch == '>' {
-                                    bracket_depth -= 1;
-                                }
-                            }
+        // For inlay hints, use the full Quantity<unit, type> format
+        let full_type = format!("Quantity{}", generic_params);
+        let pretty_type = self
+            .formatter
+            .format_types_inlay_hint(&full_type, &self.display_config);
+        if pretty_type == full_type {
+            // Not a concrete quantity type: leave its parts as they are
+            return;
+        }
 
-                            parts_to_remove.push(i);
+        // Replace the "Quantity" part with the pretty version, preserving its location information,
+        // and for inlay hints specifically, prune ^1 exponents while keeping meaningful ones
+        label_array[quantity_idx]["value"] = json!(self.prune_inlay_hint_exponents(&pretty_type));
 
-                            // Stop when we've closed all brackets
-                            if found_opening_bracket && bracket_depth == 0 {
-                                break;
-                            }
-                        }
-                    }
-                }
-
-                // Remove parts in reverse order to maintain indices
-                for &i in parts_to_remove.iter().rev() {
-                    label_array.remove(i);
-                }
-            } else {
-            }
+        // Remove all the generic parameters parts, up to any text after the type
+        if trailing_text.is_empty() {
+            label_array.drain(first_param..end);
         } else {
+            label_array[end - 1]["value"] = json!(trailing_text);
+            label_array.drain(first_param..end - 1);
         }
-
-        Ok(())
     }
 
     /// Add a unit! macro text edit to the hint
-- 
2.43.0


From 960087b370b9a5618275e1b6e3e0bb9694a5ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 40/49] fix: prune only exponents of one from inlay hints

---
 lsp-proxy/src/inlay_hint_processor.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index bee0056..d86e301 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -366,19 +366,19 @@ impl InlayHintProcessor {
     pub fn prune_inlay_hint_exponents(&self, pretty_type: &str) -> String {
         // In our pretty-printed output, we use Unicode superscripts like ¹, ², ³, etc.
         // We want to remove ¹ (superscript 1) but keep all other superscripts
-        // For negative exponents, we want to preserve the full -1 to make it clear
-        let mut result = pretty_type.to_string();
-
-        // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent)
-        // Since ⁻¹ is two separate Unicode characters (⁻ + ¹), we need to handle this carefully
-        // First, temporarily replace ⁻¹ with a placeholder to protect it
-        result = result.replace("⁻¹", "PLACEHOLDER_MINUS_ONE");
-
-        // Then remove standalone ¹
-        result = result.replace("¹", "");
-
-        // Finally, restore the ⁻¹
-        result = result.replace("PLACEHOLDER_MINUS_ONE", "⁻¹");
+        // that stand alone (⁻¹ represents a meaningful negative exponent, and ¹² is another number)
+        let is_superscript = |ch: &char| "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(*ch);
+        let mut result = String::with_capacity(pretty_type.len());
+        let mut chars = pretty_type.chars().peekable();
+        let mut follows_superscript = false;
+
+        while let Some(ch) = chars.next() {
+            let stands_alone = !follows_superscript && !chars.peek().is_some_and(is_superscript);
+            if ch != '¹' || !stands_alone {
+                result.push(ch);
+            }
+            follows_superscript = is_superscript(&ch);
+        }
 
         result
     }
-- 
2.43.0


From cafc937b356572e76bf67c03888bf628ca4fda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 41/49] fix: the unit! macro an inlay hint inserts is
 equivalent to its type and replaces only that type's edit

---
 lsp-proxy/src/inlay_hint_processor.rs | 200 ++++++--------------------
 lsp-proxy/src/unit_formatter.rs       |  85 ++++++++++-
 2 files changed, 125 insertions(+), 160 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index d86e301..a234b93 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -87,6 +87,9 @@ impl InlayHintProcessor {
         };
 
         if has_whippyunits {
+            // The unit! macro completion has to stand for the type as it was before it is prettified
+            let seeded_text = self.generate_seeded_unit_macro(hint_obj);
+
             // Get the label array from the object and process it
             if let Some(label) = hint_obj.get_mut("label") {
                 if let Some(label_array) = label.as_array_mut() {
@@ -94,8 +97,10 @@ impl InlayHintProcessor {
                 }
             }
 
-            // Always add the unit! macro completion, regardless of resolution state
-            self.add_seeded_unit_macro_text_edit(hint_obj)?;
+            // Add the unit! macro completion, regardless of resolution state
+            if let Some(seeded_text) = seeded_text {
+                self.add_seeded_unit_macro_text_edit(hint_obj, seeded_text);
+            }
         }
         Ok(())
     }
@@ -191,175 +196,52 @@ impl InlayHintProcessor {
     fn add_seeded_unit_macro_text_edit(
         &self,
         hint_obj: &mut serde_json::Map<String, Value>,
-    ) -> Result<()> {
-        // Generate the unit! macro text
-        let seeded_text = self.generate_seeded_unit_macro(hint_obj)?;
-
-        // Extract position before any mutable borrows
-        let position = if let Some(pos) = hint_obj.get("position") {
-            pos.clone()
-        } else {
-            return Ok(());
+        seeded_text: String,
+    ) {
+        let Some(position) = hint_obj.get("position").cloned() else {
+            return;
         };
 
-        // Replace existing textEdits with our seeded unit macro
-        if let Some(existing_text_edits) = hint_obj.get_mut("textEdits") {
-            if let Some(text_edits_array) = existing_text_edits.as_array_mut() {
-                // Clear existing text edits and add our unit! macro one
-                text_edits_array.clear();
-
-                // Get the range from the first existing text edit (if any)
-                let range = if let Some(first_edit) = text_edits_array.first() {
-                    if let Some(range) = first_edit.get("range") {
-                        range.clone()
-                    } else {
-                        // Fallback: use position as range
-                        json!({
-                            "start": position,
-                            "end": position
-                        })
-                    }
-                } else {
-                    // No existing text edits, use position as range
-                    json!({
-                        "start": position,
-                        "end": position
-                    })
-                };
-
-                // Add our unit! macro text edit
-                let text_edit = json!({
-                    "range": range,
-                    "newText": seeded_text
-                });
-                text_edits_array.push(text_edit);
+        // Replace the text of the existing edit that inserts the type, where it is
+        if let Some(edits) = hint_obj.get_mut("textEdits").and_then(Value::as_array_mut) {
+            if let Some(edit) = edits.iter_mut().find(|edit| {
+                edit["newText"]
+                    .as_str()
+                    .is_some_and(|text| text.contains("Quantity"))
+            }) {
+                edit["newText"] = json!(seeded_text);
+                return;
+            }
+            if !edits.is_empty() {
+                return;
             }
-        } else {
-            // No existing textEdits, create new array
-            let range = json!({
-                "start": position,
-                "end": position
-            });
-
-            let text_edit = json!({
-                "range": range,
-                "newText": seeded_text
-            });
-            hint_obj.insert("textEdits".to_string(), json!([text_edit]));
         }
 
-        Ok(())
+        // No existing textEdits, use position as range
+        hint_obj.insert(
+            "textEdits".to_string(),
+            json!([{
+                "range": { "start": position, "end": position },
+                "newText": seeded_text
+            }]),
+        );
     }
 
-    /// Generate a seeded unit macro based on the unresolved type
+    /// Generate a type annotation with a unit! macro equivalent to the type in the label, if the
+    /// label is the annotation of a single quantity type and there is such a macro
     fn generate_seeded_unit_macro(
         &self,
         hint_obj: &serde_json::Map<String, Value>,
-    ) -> Result<String> {
-        // We need to reconstruct the original unresolved type from the pretty-printed version
-        // Look for the pretty-printed type in the label
-        let mut pretty_type = String::new();
-
-        if let Some(label) = hint_obj.get("label") {
-            if let Some(label_array) = label.as_array() {
-                for part in label_array {
-                    if let Some(value) = part.get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Skip the ": " part
-                            if text != ": " {
-                                pretty_type.push_str(text);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-
-        // Extract the datatype suffix if present
-        let (unit_part, datatype) = self.extract_unit_and_datatype(&pretty_type);
-
-        // Generate the appropriate unit! macro format based on datatype
-        let unit_macro = if datatype == "f64" {
-            // For f64, use the simple format: unit!(mm)
-            format!("unit!({})", unit_part)
-        } else {
-            // For other datatypes, use the type-specified format: unit!(mm, i32)
-            format!("unit!({}, {})", unit_part, datatype)
-        };
+    ) -> Option<String> {
+        let label = hint_obj.get("label")?.as_array()?;
+        let text: String = label
+            .iter()
+            .filter_map(|part| part["value"].as_str())
+            .collect();
+        let unit_macro = self.formatter.format_unit_macro(text.strip_prefix(": ")?)?;
 
         // Return just the type annotation with the unit! macro
-        Ok(format!(": {}", unit_macro))
-    }
-
-    /// Extract unit part and datatype from a pretty-printed type with suffix
-    fn extract_unit_and_datatype(&self, pretty_type: &str) -> (String, String) {
-        // Remove the "Unresolved type - " prefix if present
-        let clean_type = if pretty_type.starts_with("Unresolved type - ") {
-            &pretty_type[18..] // Skip "Unresolved type - "
-        } else {
-            pretty_type
-        };
-
-        // Check for new Quantity<unit, datatype> format
-        if clean_type.starts_with("Quantity<") && clean_type.ends_with('>') {
-            let inner = &clean_type[9..clean_type.len() - 1]; // Remove "Quantity<" and ">"
-
-            if let Some(comma_pos) = inner.rfind(',') {
-                let unit_part = self.convert_pretty_type_to_unit_macro(inner[..comma_pos].trim());
-                let datatype = inner[comma_pos + 1..].trim().to_string();
-                return (unit_part, datatype);
-            } else {
-                // No comma found, this might be a malformed Quantity type
-                // Try to extract just the unit part without datatype
-                let unit_part = self.convert_pretty_type_to_unit_macro(inner.trim());
-                return (unit_part, "f64".to_string());
-            }
-        }
-
-        // Check for old backing datatype suffix format (fallback for compatibility)
-        if let Some(underscore_pos) = clean_type.rfind('_') {
-            let suffix = &clean_type[underscore_pos + 1..];
-            if suffix == "f64"
-                || suffix == "f32"
-                || suffix == "i64"
-                || suffix == "i32"
-                || suffix == "i16"
-                || suffix == "i8"
-                || suffix == "u64"
-                || suffix == "u32"
-                || suffix == "u16"
-                || suffix == "u8"
-                || suffix == "isize"
-                || suffix == "usize"
-            {
-                let unit_part =
-                    self.convert_pretty_type_to_unit_macro(&clean_type[..underscore_pos]);
-                return (unit_part, suffix.to_string());
-            }
-        }
-
-        // No datatype suffix found, treat as f64 (default)
-        let unit_part = self.convert_pretty_type_to_unit_macro(clean_type);
-        (unit_part, "f64".to_string())
-    }
-
-    /// Convert pretty-printed type to unit! macro format
-    fn convert_pretty_type_to_unit_macro(&self, pretty_type: &str) -> String {
-        // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
-        // Remove the ? and place cursor after the caret
-        pretty_type
-            .replace("ˀ", "^") // Replace superscript question mark with just ^
-            .replace("⁻", "^-") // Replace superscript minus with ^-
-            .replace("¹", "^1") // Replace superscript 1 with ^1
-            .replace("²", "^2") // Replace superscript 2 with ^2
-            .replace("³", "^3") // Replace superscript 3 with ^3
-            .replace("⁴", "^4") // Replace superscript 4 with ^4
-            .replace("⁵", "^5") // Replace superscript 5 with ^5
-            .replace("⁶", "^6") // Replace superscript 6 with ^6
-            .replace("⁷", "^7") // Replace superscript 7 with ^7
-            .replace("⁸", "^8") // Replace superscript 8 with ^8
-            .replace("⁹", "^9") // Replace superscript 9 with ^9
-            .replace("⁰", "^0") // Replace superscript 0 with ^0
+        Some(format!(": {}", unit_macro))
     }
 
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 15ccdec..29d9ae0 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,5 +1,7 @@
+use syn::parse_str;
+use whippyunits::print::unit_literal_generator::{generate_unit_literal, UnitLiteralConfig};
 use whippyunits_core::{
-    dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
+    dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents, UnitExpr,
 };
 
 /// Display configuration for whippyunits type formatting
@@ -100,6 +102,87 @@ impl UnitFormatter {
         self.format_quantity_types(text, config.verbose, config.unicode, true)
     }
 
+    /// Format a Quantity type as the equivalent `unit!` macro, if the text is a concrete type and
+    /// the macro can express its unit. For a partially resolved type, the macro is to be completed.
+    pub fn format_unit_macro(&self, text: &str) -> Option<String> {
+        let arguments = text.strip_prefix("Quantity<")?;
+        let (arguments, _) =
+            split_generic_arguments(arguments).filter(|(_, length)| *length == arguments.len())?;
+        let params = self.parse_new_quantity_params(&arguments)?;
+        let QuantityParams {
+            dimensions, scale, ..
+        } = params;
+
+        let config = || UnitLiteralConfig {
+            verbose: false,
+            prefer_si_units: true,
+        };
+        let literal = self.to_unit_expression(&generate_unit_literal(dimensions, scale, config()));
+        let is_resolved = !dimensions
+            .0
+            .iter()
+            .chain(&scale.0)
+            .any(|&exp| exp == i16::MIN);
+
+        let unit = if !is_resolved {
+            literal
+        } else {
+            // The name of the unit, or else a power of ten of the one without a scale
+            let unscaled = generate_unit_literal(dimensions, ScaleExponents::IDENTITY, config());
+            let scaled = match scale.log10() {
+                Some(power) => format!("10^{} * {}", power, self.to_unit_expression(&unscaled)),
+                None => String::new(),
+            };
+            [literal, scaled, "1".to_string()]
+                .into_iter()
+                .find(|unit| {
+                    parse_str::<UnitExpr>(unit).is_ok_and(|expr| {
+                        let unit = expr.evaluate();
+                        expr.validate_strict().is_none()
+                            && unit.dimension_exponents == dimensions
+                            && unit.scale_exponents == scale
+                    })
+                })?
+        };
+
+        Some(
+            match (params.generic_type.as_str(), params.brand.as_deref()) {
+                // For f64, use the simple format: unit!(mm)
+                ("f64", None | Some("()")) => format!("unit!({})", unit),
+                // For other datatypes, use the type-specified format: unit!(mm, i32)
+                (generic_type, None | Some("()")) => format!("unit!({}, {})", unit, generic_type),
+                (generic_type, Some(brand)) => {
+                    format!("unit!({}, {}, {})", unit, generic_type, brand)
+                }
+            },
+        )
+    }
+
+    /// Convert a pretty-printed unit to the syntax of unit expressions, in which an unknown
+    /// exponent is left to be completed: "kg·m²·sˀ" becomes "kg * m^2 * s^"
+    fn to_unit_expression(&self, pretty_unit: &str) -> String {
+        const SUPERSCRIPTS: &str = "⁰¹²³⁴⁵⁶⁷⁸⁹⁻";
+        let mut result = String::with_capacity(pretty_unit.len());
+        let mut in_exponent = false;
+
+        for ch in pretty_unit.chars() {
+            let digit = SUPERSCRIPTS
+                .chars()
+                .position(|superscript| superscript == ch);
+            if digit.is_some() && !in_exponent {
+                result.push('^');
+            }
+            in_exponent = digit.is_some();
+            match (digit, ch) {
+                (Some(digit), _) => result.push("0123456789-".as_bytes()[digit] as char),
+                (None, 'ˀ') => result.push('^'),
+                (None, '·') => result.push_str(" * "),
+                (None, ch) => result.push(ch),
+            }
+        }
+        result
+    }
+
     /// Core method to format Quantity types with configurable parameters
     fn format_quantity_types(
         &self,
-- 
2.43.0


From 6728049a9bfc528d9cf9156d45bb388b22364aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 42/49] fix: the pretty printer keeps line endings and the
 bytes of lines it cannot read

---
 whippyunits-pretty/src/main.rs         | 28 ++++++++++++++++----------
 whippyunits-pretty/src/rustc_pretty.rs | 13 ++++++------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e5f888b..dc14cff 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,7 +1,8 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
-use std::io::{self, BufRead, BufReader};
+use std::fs::File;
+use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
 use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
@@ -56,20 +57,25 @@ async fn main() -> Result<()> {
     // Process input
     if let Some(input_file) = args.input {
         // Read from file
-        let content = std::fs::read_to_string(&input_file)?;
-        let processed = printer.process_rustc_output(&content)?;
-        print!("{}", processed);
+        process(BufReader::new(File::open(&input_file)?), &mut printer)
     } else {
         // Read from stdin
-        let stdin = io::stdin();
-        let reader = BufReader::new(stdin.lock());
+        process(io::stdin().lock(), &mut printer)
+    }
+}
+
+/// Process the input line by line, keeping its line endings and any line that is not valid UTF-8
+fn process(mut input: impl BufRead, printer: &mut RustcPrettyPrinter) -> Result<()> {
+    let mut output = io::stdout().lock();
+    let mut line = Vec::new();
 
-        for line in reader.lines() {
-            let line = line?;
-            let processed = printer.process_line(&line)?;
-            println!("{}", processed);
+    while input.read_until(b'\n', &mut line)? > 0 {
+        match std::str::from_utf8(&line) {
+            Ok(text) => output.write_all(printer.process_rustc_output(text)?.as_bytes())?,
+            Err(_) => output.write_all(&line)?,
         }
+        line.clear();
     }
 
-    Ok(())
+    Ok(output.flush()?)
 }
diff --git a/whippyunits-pretty/src/rustc_pretty.rs b/whippyunits-pretty/src/rustc_pretty.rs
index 4eb5e46..b99a202 100644
--- a/whippyunits-pretty/src/rustc_pretty.rs
+++ b/whippyunits-pretty/src/rustc_pretty.rs
@@ -23,15 +23,16 @@ impl RustcPrettyPrinter {
 
     /// Process a complete rustc output string
     pub fn process_rustc_output(&mut self, output: &str) -> Result<String> {
-        let lines: Vec<&str> = output.lines().collect();
-        let mut processed_lines = Vec::new();
+        let mut processed = String::with_capacity(output.len());
 
-        for line in lines {
-            let processed = self.process_line(line)?;
-            processed_lines.push(processed);
+        for line in output.split_inclusive('\n') {
+            let content = line.strip_suffix('\n').unwrap_or(line);
+            let content = content.strip_suffix('\r').unwrap_or(content);
+            processed.push_str(&self.process_line(content)?);
+            processed.push_str(&line[content.len()..]);
         }
 
-        Ok(processed_lines.join("\n"))
+        Ok(processed)
     }
 
     /// Process a single line of rustc output
-- 
2.43.0


From 4508b430ba922fc6615faac09adf900db41cdbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 43/49] fix: look for split quantity types even when another
 Quantity< is in the message

---
 lsp-proxy/src/quantity_detection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/quantity_detection.rs b/lsp-proxy/src/quantity_detection.rs
index 77f7105..ceb478d 100644
--- a/lsp-proxy/src/quantity_detection.rs
+++ b/lsp-proxy/src/quantity_detection.rs
@@ -9,8 +9,9 @@ pub fn contains_quantity_types_fast(json_payload: &str) -> bool {
     }
 
     // For initial inlay hints (full type in one chunk), validate the Quantity< pattern
-    if json_payload.contains("Quantity<") {
-        return validate_quantity_format(json_payload);
+    // (an unrelated Quantity< elsewhere in the message says nothing about the rest of it)
+    if json_payload.contains("Quantity<") && validate_quantity_format(json_payload) {
+        return true;
     }
 
     // For mouseover/resolved hints (deconstructed type), look for separate Scale and Dimension
-- 
2.43.0


From 19cfe38268ff8e32e0658360304bb5819f49345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 44/49] fix: displays name the numeric type and the brand
 without the standard library too

---
 src/print/display_traits.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/print/display_traits.rs b/src/print/display_traits.rs
index 452615f..be85acc 100644
--- a/src/print/display_traits.rs
+++ b/src/print/display_traits.rs
@@ -20,14 +20,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for display");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
@@ -59,14 +53,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for debug");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
-- 
2.43.0


From e58794d2afd7dfa3c3ed619faaae245d07f82d0b Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 45/49] fix: brands made by define_unit_declarators! can be
 compared

Quantity's PartialEq and PartialOrd need Brand: PartialEq, which the generated
brand struct did not implement, so quantities of such a brand had no == or <.
---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 553d12d..af61e04 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -189,7 +189,7 @@ impl DefineBaseUnitsInput {
         // Create the brand struct definition token stream if brand is present
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
@@ -893,7 +893,7 @@ impl DefineBaseUnitsInput {
 
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
-- 
2.43.0


From 0abf5f9d2547b34b6bf06081fcd6e30a5ddcb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 46/49] fix: quantity! and rescale! import nothing into the
 scope of their arguments

---
 proc-macros/src/quantity_macro.rs | 16 ++++++++---
 src/rescale_macro.rs              | 45 +++++++++++--------------------
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 88d27a1..b14bdaf 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -173,6 +173,16 @@ impl QuantityMacroInput {
             .map(|t| quote! { #t })
             .unwrap_or_else(|| quote! { () });
 
+        // Paths in full, so that nothing is imported into the scope of the value expression
+        let quantity_type = quote! {
+            whippyunits::quantity::Quantity::<
+                whippyunits::quantity::Scale<whippyunits::quantity::_2<#p2>, whippyunits::quantity::_3<#p3>, whippyunits::quantity::_5<#p5>, whippyunits::quantity::_Pi<#pi>>,
+                whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass_exp>, whippyunits::quantity::_L<#length_exp>, whippyunits::quantity::_T<#time_exp>, whippyunits::quantity::_I<#current_exp>, whippyunits::quantity::_Θ<#temp_exp>, whippyunits::quantity::_N<#amount_exp>, whippyunits::quantity::_J<#lum_exp>, whippyunits::quantity::_A<#angle_exp>>,
+                #storage_type_ty,
+                #brand_type_ty
+            >
+        };
+
         let value_expr = &self.value;
         let has_nonstorage = conversion_factor != 1.0 || affine_offset != 0.0;
 
@@ -183,18 +193,16 @@ impl QuantityMacroInput {
 
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
                     let raw_value: #storage_type_ty = #value_expr;
                     let converted_value = (raw_value as f64) * #cf + #af;
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(converted_value as #storage_type_ty)
+                    #quantity_type::new(converted_value as #storage_type_ty)
                 }
             }
         } else {
             // Pure storage unit - no conversion needed
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(#value_expr)
+                    #quantity_type::new(#value_expr)
                 }
             }
         }
diff --git a/src/rescale_macro.rs b/src/rescale_macro.rs
index 17a3701..e36d252 100644
--- a/src/rescale_macro.rs
+++ b/src/rescale_macro.rs
@@ -48,92 +48,77 @@
 macro_rules! rescale {
     // f64 (default) - two arguments
     ($quantity:expr, $unit:expr) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f64 (explicit) - three arguments with f64
     ($quantity:expr, $unit:expr, f64) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f32
     ($quantity:expr, $unit:expr, f32) => {{
-        type TargetQuantity = $crate::unit!($unit, f32);
-        let result: TargetQuantity = $crate::api::rescale_f32($quantity);
+        let result: $crate::unit!($unit, f32) = $crate::api::rescale_f32($quantity);
         result as $crate::unit!($unit, f32)
     }};
     // i8
     ($quantity:expr, $unit:expr, i8) => {{
-        type TargetQuantity = $crate::unit!($unit, i8);
-        let result: TargetQuantity = $crate::api::rescale_i8($quantity);
+        let result: $crate::unit!($unit, i8) = $crate::api::rescale_i8($quantity);
         result as $crate::unit!($unit, i8)
     }};
     // i16
     ($quantity:expr, $unit:expr, i16) => {{
-        type TargetQuantity = $crate::unit!($unit, i16);
-        let result: TargetQuantity = $crate::api::rescale_i16($quantity);
+        let result: $crate::unit!($unit, i16) = $crate::api::rescale_i16($quantity);
         result as $crate::unit!($unit, i16)
     }};
     // i32
     ($quantity:expr, $unit:expr, i32) => {{
-        type TargetQuantity = $crate::unit!($unit, i32);
-        let result: TargetQuantity = $crate::api::rescale_i32($quantity);
+        let result: $crate::unit!($unit, i32) = $crate::api::rescale_i32($quantity);
         result as $crate::unit!($unit, i32)
     }};
     // i64
     ($quantity:expr, $unit:expr, i64) => {{
-        type TargetQuantity = $crate::unit!($unit, i64);
-        let result: TargetQuantity = $crate::api::rescale_i64($quantity);
+        let result: $crate::unit!($unit, i64) = $crate::api::rescale_i64($quantity);
         result as $crate::unit!($unit, i64)
     }};
     // i128
     ($quantity:expr, $unit:expr, i128) => {{
-        type TargetQuantity = $crate::unit!($unit, i128);
-        let result: TargetQuantity = $crate::api::rescale_i128($quantity);
+        let result: $crate::unit!($unit, i128) = $crate::api::rescale_i128($quantity);
         result as $crate::unit!($unit, i128)
     }};
     // u8
     ($quantity:expr, $unit:expr, u8) => {{
-        type TargetQuantity = $crate::unit!($unit, u8);
-        let result: TargetQuantity = $crate::api::rescale_u8($quantity);
+        let result: $crate::unit!($unit, u8) = $crate::api::rescale_u8($quantity);
         result as $crate::unit!($unit, u8)
     }};
     // u16
     ($quantity:expr, $unit:expr, u16) => {{
-        type TargetQuantity = $crate::unit!($unit, u16);
-        let result: TargetQuantity = $crate::api::rescale_u16($quantity);
+        let result: $crate::unit!($unit, u16) = $crate::api::rescale_u16($quantity);
         result as $crate::unit!($unit, u16)
     }};
     // u32
     ($quantity:expr, $unit:expr, u32) => {{
-        type TargetQuantity = $crate::unit!($unit, u32);
-        let result: TargetQuantity = $crate::api::rescale_u32($quantity);
+        let result: $crate::unit!($unit, u32) = $crate::api::rescale_u32($quantity);
         result as $crate::unit!($unit, u32)
     }};
     // u64
     ($quantity:expr, $unit:expr, u64) => {{
-        type TargetQuantity = $crate::unit!($unit, u64);
-        let result: TargetQuantity = $crate::api::rescale_u64($quantity);
+        let result: $crate::unit!($unit, u64) = $crate::api::rescale_u64($quantity);
         result as $crate::unit!($unit, u64)
     }};
     // u128
     ($quantity:expr, $unit:expr, u128) => {{
-        type TargetQuantity = $crate::unit!($unit, u128);
-        let result: TargetQuantity = $crate::api::rescale_u128($quantity);
+        let result: $crate::unit!($unit, u128) = $crate::api::rescale_u128($quantity);
         result as $crate::unit!($unit, u128)
     }};
     // isize
     ($quantity:expr, $unit:expr, isize) => {{
-        type TargetQuantity = $crate::unit!($unit, isize);
-        let result: TargetQuantity = $crate::api::rescale_isize($quantity);
+        let result: $crate::unit!($unit, isize) = $crate::api::rescale_isize($quantity);
         result as $crate::unit!($unit, isize)
     }};
     // usize
     ($quantity:expr, $unit:expr, usize) => {{
-        type TargetQuantity = $crate::unit!($unit, usize);
-        let result: TargetQuantity = $crate::api::rescale_usize($quantity);
+        let result: $crate::unit!($unit, usize) = $crate::api::rescale_usize($quantity);
         result as $crate::unit!($unit, usize)
     }};
 }
-- 
2.43.0


From 4cbe9835b004429bbc743807106f6df72e6e0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 47/49] fix: from_json! and from_string! need no crate beside
 whippyunits

---
 src/serialization.rs | 124 +++++++------------------------------------
 1 file changed, 20 insertions(+), 104 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index abb8b8e..2853260 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -808,32 +808,11 @@ macro_rules! from_json {
             Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
-                        $crate::serialization::SerializationError,
-                    >
+                let result: ::core::result::Result<
+                    $crate::unit!($unit, f64),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                result
             }
             Err(e) => Err(e),
         }
@@ -841,32 +820,11 @@ macro_rules! from_json {
     ($json:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_json_input($json) {
             Ok((value, unit_str)) => {
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
-                        $crate::serialization::SerializationError,
-                    >
+                let result: ::core::result::Result<
+                    $crate::unit!($unit, $storage_type),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                result
             }
             Err(e) => Err(e),
         }
@@ -940,32 +898,11 @@ macro_rules! from_string {
             Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
-                        $crate::serialization::SerializationError,
-                    >
+                let result: ::core::result::Result<
+                    $crate::unit!($unit, f64),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                result
             }
             Err(e) => Err(e),
         }
@@ -975,32 +912,11 @@ macro_rules! from_string {
             Ok((value, unit_str)) => {
                 // Use deserialize_core_quantity to handle dimension checking and rescaling
                 // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
-                        $crate::serialization::SerializationError,
-                    >
+                let result: ::core::result::Result<
+                    $crate::unit!($unit, $storage_type),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                result
             }
             Err(e) => Err(e),
         }
-- 
2.43.0


From 267d1851558bd5f2d033694bff03fb174add248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 48/49] fix: a number beside a week in a local declarator
 module's quantity! compiles

---
 proc-macros/src/utils/shared_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6a566da..e2c05f6 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -96,9 +96,13 @@ pub fn get_declarator_type_for_exponents(
         .find(|dim| dim.exponents == dimension_exponents)?;
 
     // Look for a unit in this dimension that matches the scale exponents
-    // We need to find a unit that has the same scale exponents
+    // We need to find a unit that has the same scale exponents; only storage units have a
+    // declarator type of their own
     for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
+        if unit.scale == scale_exponents
+            && unit.conversion_factor == 1.0
+            && unit.affine_offset == 0.0
+        {
             // Found a matching unit - generate type name using same logic as default declarators
             let type_name = if unit.system == System::Metric {
                 // For metric units, use the same logic as generate_default_declarators_macro
-- 
2.43.0


From c7a33630b772b6ebf577d9f8a87c97be6547909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 49/49] fix: quantity types right after a terminal color
 sequence are rewritten

---
 lsp-proxy/src/unit_formatter.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 29d9ae0..e71e176 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -201,10 +201,11 @@ impl UnitFormatter {
             result.push_str(before);
 
             // The name of another type may end in "Quantity"
-            let is_whole_name = !result
-                .chars()
-                .next_back()
-                .is_some_and(|ch| ch.is_alphanumeric() || ch == '_');
+            let is_whole_name = ends_with_color(&result)
+                || !result
+                    .chars()
+                    .next_back()
+                    .is_some_and(|ch| ch.is_alphanumeric() || ch == '_');
             let quantity = split_generic_arguments(&candidate[QUANTITY.len()..])
                 .filter(|_| is_whole_name)
                 .and_then(|(arguments, length)| {
@@ -407,6 +408,13 @@ fn split_at_code_block(text: &str) -> Option<(&str, &str, &str)> {
     Some((before_code, code_content, &from_end[CODE_END.len()..]))
 }
 
+/// Whether a text ends with the control sequence of a terminal color, such as "\u{1b}[1;31m"
+fn ends_with_color(text: &str) -> bool {
+    text.rsplit_once("\u{1b}[")
+        .and_then(|(_, sequence)| sequence.strip_suffix('m'))
+        .is_some_and(|codes| codes.chars().all(|ch| ch.is_ascii_digit() || ch == ';'))
+}
+
 /// Split the comma-separated generic arguments at the start of a text, which follows their opening
 /// bracket. Returns the arguments and where the text after their closing bracket starts.
 fn split_generic_arguments(text: &str) -> Option<(Vec<&str>, usize)> {
-- 
2.43.0

