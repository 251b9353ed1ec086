From 56bc5e01adaed2a6ac1bfbf6d039e164b14bb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 1/8] fix: keep indenting data objects nested more than 255
 levels deep

The indentation was a u8, so the 257th nesting level overflowed it and the tool
panicked (or, without overflow checks, restarted from no indentation).
---
 src/emv/authorisation_response_code.rs |  2 +-
 src/emv/bitflag_values.rs              |  2 +-
 src/emv/ccd/iad.rs                     |  2 +-
 src/emv/cvm_list.rs                    |  2 +-
 src/emv/iac/default.rs                 |  2 +-
 src/emv/iac/denial.rs                  |  2 +-
 src/emv/iac/online.rs                  |  2 +-
 src/emv/pos_entry_mode.rs              |  2 +-
 src/emv/tag_basic_info.rs              |  2 +-
 src/emv/terminal_type.rs               |  2 +-
 src/emv/tlv_parsing/mod.rs             | 10 +++++-----
 src/emv/transaction_type.rs            |  2 +-
 src/main.rs                            |  2 +-
 src/non_emv/service_code.rs            |  2 +-
 src/util.rs                            |  6 +++---
 15 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/emv/authorisation_response_code.rs b/src/emv/authorisation_response_code.rs
index 8b8ec99..4d18e8c 100644
--- a/src/emv/authorisation_response_code.rs
+++ b/src/emv/authorisation_response_code.rs
@@ -106,7 +106,7 @@ impl TryFrom<&[u8]> for AuthorisationResponseCode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for AuthorisationResponseCode {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/bitflag_values.rs b/src/emv/bitflag_values.rs
index 6c8d755..ee14786 100644
--- a/src/emv/bitflag_values.rs
+++ b/src/emv/bitflag_values.rs
@@ -73,7 +73,7 @@ where
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let bold_colour_spec = bold_colour_spec();
diff --git a/src/emv/ccd/iad.rs b/src/emv/ccd/iad.rs
index e6c8e07..604fe94 100644
--- a/src/emv/ccd/iad.rs
+++ b/src/emv/ccd/iad.rs
@@ -104,7 +104,7 @@ impl DisplayBreakdown for IssuerApplicationData {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let header_colour_spec = header_colour_spec();
diff --git a/src/emv/cvm_list.rs b/src/emv/cvm_list.rs
index bb86f2a..322dbe0 100644
--- a/src/emv/cvm_list.rs
+++ b/src/emv/cvm_list.rs
@@ -59,7 +59,7 @@ impl TryFrom<&[u8]> for CardholderVerificationMethodList {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for CardholderVerificationMethodList {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		/// This value is chosen as 3 because common currency denominations have
 		/// 2 digits for the cents (or equivalent) and this allows 1 additional
 		/// digit to represent the whole amount. For example, `$0.00`.
diff --git a/src/emv/iac/default.rs b/src/emv/iac/default.rs
index 82bb1c6..609e323 100644
--- a/src/emv/iac/default.rs
+++ b/src/emv/iac/default.rs
@@ -70,7 +70,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeDefault {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeDefault {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/iac/denial.rs b/src/emv/iac/denial.rs
index 53dd9ac..84deedd 100644
--- a/src/emv/iac/denial.rs
+++ b/src/emv/iac/denial.rs
@@ -64,7 +64,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeDenial {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeDenial {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/iac/online.rs b/src/emv/iac/online.rs
index 2d9f90a..07cfc74 100644
--- a/src/emv/iac/online.rs
+++ b/src/emv/iac/online.rs
@@ -68,7 +68,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeOnline {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeOnline {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/pos_entry_mode.rs b/src/emv/pos_entry_mode.rs
index 2297b67..81a2e61 100644
--- a/src/emv/pos_entry_mode.rs
+++ b/src/emv/pos_entry_mode.rs
@@ -57,7 +57,7 @@ impl TryFrom<&[u8]> for PosEntryMode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for PosEntryMode {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/tag_basic_info.rs b/src/emv/tag_basic_info.rs
index 44cd656..f97d2e9 100644
--- a/src/emv/tag_basic_info.rs
+++ b/src/emv/tag_basic_info.rs
@@ -54,7 +54,7 @@ impl TryFrom<&[u8]> for TagBasicInfo {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TagBasicInfo {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let bold_colour_spec = bold_colour_spec();
 		let header_colour_spec = header_colour_spec();
 
diff --git a/src/emv/terminal_type.rs b/src/emv/terminal_type.rs
index 7ac82a3..a57f920 100644
--- a/src/emv/terminal_type.rs
+++ b/src/emv/terminal_type.rs
@@ -70,7 +70,7 @@ impl TryFrom<&[u8]> for TerminalType {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TerminalType {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/tlv_parsing/mod.rs b/src/emv/tlv_parsing/mod.rs
index c636d36..e274ec0 100644
--- a/src/emv/tlv_parsing/mod.rs
+++ b/src/emv/tlv_parsing/mod.rs
@@ -67,7 +67,7 @@ impl DisplayBreakdown for ProcessedEmvBlock {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let mut first = true;
@@ -120,7 +120,7 @@ impl DisplayBreakdown for ProcessedEmvNode {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		// Display the tag
@@ -277,12 +277,12 @@ impl DisplayBreakdown for ProcessedEmvTag {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		fn print_tag_name(
 			stdout: &mut StandardStream,
-			indentation: u8,
+			indentation: usize,
 			header_colour_spec: &ColorSpec,
 			tag: &[u8],
 			length: Option<usize>,
@@ -438,7 +438,7 @@ impl PartialOrd for RawEmvTag {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for RawEmvTag {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 		match &self.data {
 			EmvData::Normal(data) => {
diff --git a/src/emv/transaction_type.rs b/src/emv/transaction_type.rs
index ff4ea6f..8a66915 100644
--- a/src/emv/transaction_type.rs
+++ b/src/emv/transaction_type.rs
@@ -48,7 +48,7 @@ impl TryFrom<&[u8]> for TransactionType {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TransactionType {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/main.rs b/src/main.rs
index 9166379..133225f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,7 +93,7 @@ pub trait DisplayBreakdown: Debug {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	);
 }
diff --git a/src/non_emv/service_code.rs b/src/non_emv/service_code.rs
index 387b8de..311c186 100644
--- a/src/non_emv/service_code.rs
+++ b/src/non_emv/service_code.rs
@@ -120,7 +120,7 @@ impl TryFrom<&[u8]> for ServiceCode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for ServiceCode {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let bold_colour_spec = bold_colour_spec();
 
 		// Print the numeric representation
diff --git a/src/util.rs b/src/util.rs
index 6cc12df..c13d5b2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -119,7 +119,7 @@ pub fn num_dec_digits(value: u32) -> usize {
 
 /// Prints the specified amount of indentation on the current line.
 #[cfg(not(tarpaulin_include))]
-pub fn print_indentation(indentation: u8) {
+pub fn print_indentation(indentation: usize) {
 	for _ in 0..indentation {
 		print!("\t");
 	}
@@ -127,7 +127,7 @@ pub fn print_indentation(indentation: u8) {
 
 /// Pretty-prints bytes as hex.
 #[cfg(not(tarpaulin_include))]
-pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
+pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: usize) {
 	for line in bytes.chunks(bytes_per_line) {
 		// Print the hex
 		print_indentation(indentation);
@@ -149,7 +149,7 @@ pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
 /// Pretty-prints bytes as hex with an ASCII readout next to the hex on each
 /// line.
 #[cfg(not(tarpaulin_include))]
-pub fn print_bytes_pretty(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
+pub fn print_bytes_pretty(bytes: &[u8], bytes_per_line: usize, indentation: usize) {
 	for line in bytes.chunks(bytes_per_line) {
 		// Print the hex
 		print_indentation(indentation);
-- 
2.43.0


From e4858a1d6e85a5755fe05707ea70c24f70939c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 2/8] fix: accept a zero length in long form at the end of a
 BER-TLV block

5A 81 00 is a well-formed empty object, and was accepted everywhere but at the
end of the input.
---
 src/emv/tlv_parsing/ber_tlv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..cf31d1e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 7f7b28edda261a77ebe261d501b03e3dae1d6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 3/8] fix: refuse incomplete hex bytes in Ingenico TLV tags and
 lengths

The strict hex parser silently dropped the last digit of an odd number of
digits, so a length of 8 was read as 0 and a tag 5A1 as 5A.
---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index c13d5b2..4d67e8f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the last byte is
+/// missing a digit.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0


From dfcc48ed56867842e1361004e1ca69e0b899eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:07 +0000
Subject: [PATCH 4/8] fix: show the actual bits of unknown CV methods and CVM
 conditions

They were displayed as zero bits, because only the parsed value was kept.
---
 src/emv/cv_rule/cv_method.rs     | 18 +++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..01b55c7 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,24 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	/// The value as it was provided, so that its bits aren't lost if it's
+	/// unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +61,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -57,7 +69,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..8824fa7 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,24 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	/// The value as it was provided, so that its bits aren't lost if it's
+	/// unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	raw:          u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			raw:      value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +80,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			raw:      value,
 		}
 	}
 }
@@ -76,7 +88,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.raw
 	}
 }
 
-- 
2.43.0


From 9a8c2a251821606542f578aadaf334582e060754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:07 +0000
Subject: [PATCH 5/8] fix: refuse Ingenico TLV entries without a length

An empty length field was read as a length of zero.
---
 src/emv/tlv_parsing/ingenico_tlv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..aab76c9 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -68,6 +68,9 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 		// unsupported
 		let length_bytes =
 			parse_hex_str_strict(length_str).map_err(|_| ParseError::NonCompliant)?;
+		if length_bytes.is_empty() {
+			return Err(ParseError::NonCompliant);
+		}
 		if length_bytes.len() > BYTES_PER_32_BITS {
 			return Err(ParseError::Unsupported);
 		}
-- 
2.43.0


From 632e77ed2c8f34e14c8ae32114ca34490bf0fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:07 +0000
Subject: [PATCH 6/8] fix: don't detect text without any bytes as an empty
 BER-TLV block

Automatic detection reported any text without hex digits as BER-TLV.
---
 src/emv/tlv_parsing/auto_tlv.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 814f174..d6185be 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -22,14 +22,18 @@ pub fn parse(
 		return Err(ParseError::Unrecognised);
 	}
 
+	let tlv_bytes = parse_hex_str(tlv_str);
+
 	// Ingenico TLV
 	if let Ok(raw_emv_block) = parse_ingenico_tlv(tlv_str, masking_characters) {
 		Ok((TlvFormat::Ingenico, raw_emv_block))
 	}
+	// Text without any bytes in it would be accepted as an empty block
+	else if tlv_bytes.is_empty() {
+		Err(ParseError::Unrecognised)
+	}
 	// BER-TLV
-	else if let Ok(raw_emv_block) =
-		parse_ber_tlv(parse_hex_str(tlv_str).as_slice(), masking_characters)
-	{
+	else if let Ok(raw_emv_block) = parse_ber_tlv(tlv_bytes.as_slice(), masking_characters) {
 		Ok((TlvFormat::BerTlv, raw_emv_block))
 	}
 	// Error
-- 
2.43.0


From 84b77bd9257edf1a97452d05f002783f7f9ac7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:07 +0000
Subject: [PATCH 7/8] fix: keep reporting a block with an unrecognised terminal
 type or POS entry mode

A single value missing from these two lists made the whole block fail, while
unrecognised transaction types and response codes are only annotated.
---
 src/emv/tlv_parsing/process_emv_tag.rs | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/emv/tlv_parsing/process_emv_tag.rs b/src/emv/tlv_parsing/process_emv_tag.rs
index c060f85..8f92489 100644
--- a/src/emv/tlv_parsing/process_emv_tag.rs
+++ b/src/emv/tlv_parsing/process_emv_tag.rs
@@ -232,14 +232,26 @@ pub fn process_emv_tag(raw_tag: RawEmvTag) -> Result<ProcessedEmvTag, ParseError
 				CardholderVerificationMethodResults::try_from(data)
 					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
 			})?,
-			Some(([0x9F, 0x35], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
-				TerminalType::try_from(data)
-					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-			})?,
-			Some(([0x9F, 0x39], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
-				PosEntryMode::try_from(data)
-					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-			})?,
+			Some(([0x9F, 0x35], name)) => ProcessedEmvTag::parse_raw_unrecognised(
+				name,
+				"Terminal Type (Unrecognised - likely payment system-specific)",
+				raw_tag,
+				|data| {
+					TerminalType::try_from(data)
+						.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
+				},
+				|error| matches!(error, ParseError::Unrecognised),
+			)?,
+			Some(([0x9F, 0x39], name)) => ProcessedEmvTag::parse_raw_unrecognised(
+				name,
+				"POS Entry Mode (Unrecognised - likely payment system-specific)",
+				raw_tag,
+				|data| {
+					PosEntryMode::try_from(data)
+						.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
+				},
+				|error| matches!(error, ParseError::Unrecognised),
+			)?,
 			Some(([0x9F, 0x40], name)) => ProcessedEmvTag::parse_raw(name, raw_tag, |data| {
 				AdditionalTerminalCapabilities::try_from(data)
 					.map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)
-- 
2.43.0


From 446b2da91cd00b38c9506e4a1bdc1765e45764d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 8/8] fix: report unusable settings instead of panicking

---
 src/main.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 133225f..7b06bc4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -55,7 +55,7 @@ use termcolor::{StandardStream, WriteColor};
 
 use crate::{
 	cli::build_cli,
-	config::{apply_cli_arguments, colour_choice::ColourChoice, Config},
+	config::{apply_cli_arguments, Config},
 	emv::{
 		auto_tlv::parse as parse_auto_tlv,
 		ber_tlv::parse as parse_ber_tlv,
@@ -106,17 +106,17 @@ fn main() {
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-	let colour_choice = config_figment
-		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
-		.change_based_on_tty()
-		.into();
-	let masking_characters = config_figment
-		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
-	let sort_parsed_tags = config_figment
-		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+	let config = match config_figment.extract::<Config>() {
+		Ok(config) => config,
+		Err(error) => {
+			eprintln!("{error}");
+			return;
+		}
+	};
+
+	let colour_choice = config.cli_colour.change_based_on_tty().into();
+	let masking_characters = config.masking_characters;
+	let sort_parsed_tags = config.sort_parsed_tags;
 
 	let mut stdout = StandardStream::stdout(colour_choice);
 
-- 
2.43.0

