From 509ab115098e7c28daaee708b15986b7de96bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 01/25] fix: match schema patterns against the whole value

XSD pattern facets are implicitly anchored; an unanchored search accepted any
value that merely contained a match (e.g. currency 'XXEURXX').
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..aefffe9 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // Schema patterns describe the whole value, not a substring of it
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From 39bc512bae8404ef3c03dc776b09f0fca66b53d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 02/25] fix: stop collecting after the first error in fail_fast
 mode

ParserConfig::fail_fast is documented to stop at the first error, but every
later error of the message was still collected.
---
 src/validation.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index aefffe9..1f76d70 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if config.fail_fast && collector.has_errors() {
+            // fail_fast stops at the first error
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +98,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if config.fail_fast && collector.has_errors() {
+            // fail_fast stops at the first error
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
@@ -137,9 +147,14 @@ pub mod helpers {
         value: &Option<T>,
         field_name: &str,
         path: &str,
-        _config: &ParserConfig,
+        config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        if config.fail_fast && collector.has_errors() {
+            // fail_fast stops at the first error
+            return false;
+        }
+
         if value.is_none() {
             let error = ValidationError::new(1003, format!("{field_name} is required"))
                 .with_field(field_name.to_string())
-- 
2.43.0


From 3ab91ed1d02d160ea7fc54f549d4ef30855c1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 03/25] fix: accept valid Document-only XML in
 from_mx_xml_envelope_str

The Document-only branch went through MxMessage::from_xml, which always rejects
XML without an AppHdr, so validate_mx reported every such message as invalid.
---
 src/xml.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..1cfc015 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,9 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate using the typed Document-only parser
+        let message_type = message_registry::normalize_message_type(message_type);
+        xml_to_json_via_document(xml, &message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
-- 
2.43.0


From e2b36cafc2df1692a6b3dbe401ca726b27744646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 04/25] fix: accept valid envelopes in from_mx_xml_envelope_str

Deserializing MxMessage directly with quick-xml rejects every well-formed
envelope ('Unexpected Event::Start'); use MxMessage::from_xml.
---
 src/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index 1cfc015..b605371 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -32,7 +32,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From 84db4d794c7c19c025389dc202ff3d0960d27213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 05/25] fix: do not panic when </Document> precedes <Document>

xml_to_json_via_document sliced with end < start.
---
 src/xml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index b605371..ce38170 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -75,7 +75,10 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
+            if let Some(end_idx) = inner_xml
+                .rfind("</Document>")
+                .filter(|end_idx| *end_idx >= content_start)
+            {
                 &inner_xml[content_start..end_idx]
             } else {
                 inner_xml
-- 
2.43.0


From 69753f93a0c56f871185abac18a8e6867e036afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 06/25] fix: do not panic on XML truncated right after '<'

extract_message_type_from_xml indexed one past the end of '<Document><'.
---
 src/plugin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..01278f3 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,7 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && !after_doc[elem_start + 1..].starts_with('/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From a4f39587c5b8c6e19c6fc7f4d7ab600a158cf0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 07/25] fix: parse Document-only XML of all registered message
 types

xml_to_json_via_document had no arm for pain.002, camt.055, camt.058, camt.105
and camt.106, although the registry and MxMessage support them.
---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index ce38170..5c8a6db 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -181,6 +181,31 @@ pub fn xml_to_json_via_document(
             camt_109_001_01::ChequeCancellationOrStopReportV01,
             "camt.109"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "admi.024" => xml_to_json_doc!(
             inner_xml,
             admi_024_001_01::NotificationOfCorrespondenceV01,
-- 
2.43.0


From 371913fb285352a3d258c455672e1da6e1c88a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 08/25] fix: record the replaced value in parse_mx changes

The audit trail reported old_value null even when the target already held a
value; generate_mx and publish_mx report it.
---
 src/plugin/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..d290618 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -138,7 +144,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
-- 
2.43.0


From d04606a3a21e1c25a38a27ada48ff42192f5dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 09/25] fix: record the replaced value in validate_mx changes

The audit trail reported old_value null even when the target already held a
value; generate_mx and publish_mx report it.
---
 src/plugin/validate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..56a0c82 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 100c4430f5469b31a92d9745638f0650d8065d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 10/25] fix: return an error from parse_mx when data or
 metadata is not an object

The handler unwrapped and panicked; generate_mx already reports an error.
---
 src/plugin/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index d290618..c13313a 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
-- 
2.43.0


From 898dc568da1153892241fde6bff1983d4345ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 11/25] fix: return an error from validate_mx when data or
 metadata is not an object

The handler unwrapped and panicked; generate_mx already reports an error.
---
 src/plugin/validate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 56a0c82..a5ada02 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
-- 
2.43.0


From a307701677a3979cc801c795fe37b4cf918e9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 12/25] fix: keep the envelope namespaces through
 to_xml/from_xml

to_xml dropped @xmlns and @xmlns:xsi, and from_xml took whatever 'xmlns="' it
found first, including one in the text of a message body.
---
 src/mx_envelope.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..3c93462 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -236,7 +236,13 @@ impl MxMessage {
             .replace("</BusinessApplicationHeaderV02>", "</AppHdr>");
 
         let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
-        xml.push_str("<Envelope>");
+        xml.push_str("<Envelope");
+        for (name, value) in [("xmlns", &self.xmlns), ("xmlns:xsi", &self.xmlns_xsi)] {
+            if let Some(value) = value {
+                xml.push_str(&format!(" {name}=\"{}\"", quick_xml::escape::escape(value)));
+            }
+        }
+        xml.push('>');
         xml.push_str(&app_hdr_wrapped);
         xml.push_str("<Document>");
         xml.push_str(&doc_xml);
@@ -461,10 +467,19 @@ impl MxMessage {
 
     /// Extract XML attribute value
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
+        // Only the opening tags up to AppHdr carry the envelope namespaces
+        let app_hdr_idx = xml.find("<AppHdr")?;
+        let xml = &xml[..app_hdr_idx + xml[app_hdr_idx..].find('>')?];
+
         let pattern = format!("{}=\"", attr);
         let start_idx = xml.find(&pattern)? + pattern.len();
         let end_idx = xml[start_idx..].find('"')? + start_idx;
-        Some(xml[start_idx..end_idx].to_string())
+        let value = &xml[start_idx..end_idx];
+        Some(
+            quick_xml::escape::unescape(value)
+                .map(|v| v.into_owned())
+                .unwrap_or_else(|_| value.to_string()),
+        )
     }
 
     /// Detect document type from XML content
-- 
2.43.0


From ce0c1b6ec46e6bd4420673f5eb60c81260d1aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 13/25] fix: read MsgDefIdr in peek_message_type_from_xml as
 the parser does

Surrounding whitespace and entities made the peeked type differ from the type of
the fully parsed message.
---
 src/mx_envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 3c93462..8f4e15b 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -690,7 +690,10 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     if let Some(captures) = re.captures(xml)
         && let Some(msg_def_idr) = captures.get(1)
     {
-        return Ok(normalize_message_type(msg_def_idr.as_str()));
+        // Read the text as the full parser does: entities resolved, outer whitespace dropped
+        let msg_def_idr = quick_xml::escape::unescape(msg_def_idr.as_str().trim())
+            .map_err(|e| MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e)))?;
+        return Ok(normalize_message_type(&msg_def_idr));
     }
 
     Err(MxError::XmlDeserialization(
-- 
2.43.0


From b51aa4fac2111a13507171153d2a34a78081c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 14/25] fix: read repeating code elements from XML

---
 src/document/camt_052_001_08.rs | 11 +++++++++--
 src/document/camt_053_001_08.rs | 11 +++++++++--
 src/document/camt_054_001_08.rs | 11 +++++++++--
 src/document/mod.rs             | 20 ++++++++++++++++++++
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/document/camt_052_001_08.rs b/src/document/camt_052_001_08.rs
index 245aa78..345d55c 100644
--- a/src/document/camt_052_001_08.rs
+++ b/src/document/camt_052_001_08.rs
@@ -6959,11 +6959,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_053_001_08.rs b/src/document/camt_053_001_08.rs
index beb1d60..b86f143 100644
--- a/src/document/camt_053_001_08.rs
+++ b/src/document/camt_053_001_08.rs
@@ -6328,11 +6328,18 @@ impl Validate for PointOfInteraction12 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_054_001_08.rs b/src/document/camt_054_001_08.rs
index ee462c0..0412e4d 100644
--- a/src/document/camt_054_001_08.rs
+++ b/src/document/camt_054_001_08.rs
@@ -7859,11 +7859,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::repeated_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/mod.rs b/src/document/mod.rs
index 9560b75..d6e8456 100644
--- a/src/document/mod.rs
+++ b/src/document/mod.rs
@@ -48,3 +48,23 @@ pub mod pacs_010_001_03_mc;
 pub mod pain_001_001_09;
 pub mod pain_002_001_10;
 pub mod pain_008_001_08;
+
+/// Read a repeating code element. From XML, quick-xml would otherwise take the name of the repeated
+/// element for the code, so the codes are read as text first.
+pub(crate) fn repeated_codes<'de, D, T>(deserializer: D) -> Result<Option<Vec<T>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: serde::Deserialize<'de>,
+{
+    use serde::Deserialize;
+    use serde::de::IntoDeserializer;
+
+    Option::<Vec<String>>::deserialize(deserializer)?
+        .map(|codes| {
+            codes
+                .into_iter()
+                .map(|code| T::deserialize(code.into_deserializer()))
+                .collect()
+        })
+        .transpose()
+}
-- 
2.43.0


From af9397460987b19c8d9aeb27d0574b79ddf0abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 15/25] fix: return an error from generate_mx when data is not
 an object

---
 src/plugin/generate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugin/generate.rs b/src/plugin/generate.rs
index 71a358f..21cde40 100644
--- a/src/plugin/generate.rs
+++ b/src/plugin/generate.rs
@@ -58,6 +58,12 @@ impl AsyncFunctionHandler for Generate {
         };
 
         // Store the generated data in the target field
+        if !message.data().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data must be an object".to_string(),
+            ));
+        }
+
         let old_value = message
             .data()
             .get(target_field)
-- 
2.43.0


From f8fe9635688ab9c04143953db7910e471087514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 16/25] fix: locate framing elements and namespaces by whole
 tags

Elements whose names merely start with Document or AppHdr, '>' inside
attribute values, single-quoted or spaced attributes and line breaks
after the root element name no longer change what is read.
---
 src/mx_envelope.rs   | 35 +++++++++++++++-----------
 src/plugin/common.rs | 49 +++++++++++++++++-------------------
 src/xml.rs           | 60 ++++++++++++++++++++++++++++++++++++--------
 3 files changed, 92 insertions(+), 52 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 8f4e15b..0357281 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -6,6 +6,7 @@ use serde::{Deserialize, Serialize};
 use crate::error::MxError;
 pub use crate::header::AppHdr;
 use crate::message_registry;
+use crate::xml::{find_start_tag, start_tag_end, tag_attribute};
 
 /// Document enum - represents the Document element in MX messages
 /// Each variant uses serde rename to match the XML element name
@@ -451,11 +452,9 @@ impl MxMessage {
 
     /// Extract content between XML tags
     fn extract_section(xml: &str, tag: &str) -> Option<String> {
-        let start_tag = format!("<{}", tag);
         let end_tag = format!("</{}>", tag);
 
-        let start_idx = xml.find(&start_tag)?;
-        let content_start = xml[start_idx..].find('>')? + start_idx + 1;
+        let (_, content_start) = find_start_tag(xml, tag)?;
         let end_idx = xml.find(&end_tag)?;
 
         if content_start < end_idx {
@@ -468,18 +467,24 @@ impl MxMessage {
     /// Extract XML attribute value
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
         // Only the opening tags up to AppHdr carry the envelope namespaces
-        let app_hdr_idx = xml.find("<AppHdr")?;
-        let xml = &xml[..app_hdr_idx + xml[app_hdr_idx..].find('>')?];
-
-        let pattern = format!("{}=\"", attr);
-        let start_idx = xml.find(&pattern)? + pattern.len();
-        let end_idx = xml[start_idx..].find('"')? + start_idx;
-        let value = &xml[start_idx..end_idx];
-        Some(
-            quick_xml::escape::unescape(value)
-                .map(|v| v.into_owned())
-                .unwrap_or_else(|_| value.to_string()),
-        )
+        let (_, app_hdr_end) = find_start_tag(xml, "AppHdr")?;
+        let mut rest = &xml[..app_hdr_end];
+
+        while let Some(start_idx) = rest.find('<') {
+            let tag = &rest[start_idx..];
+            let end_idx = if tag.starts_with("<?") || tag.starts_with("<!") {
+                tag.find('>')? + 1
+            } else {
+                let end_idx = start_tag_end(tag)?;
+                if let Some(value) = tag_attribute(&tag[..end_idx], attr) {
+                    return Some(value);
+                }
+                end_idx
+            };
+            rest = &tag[end_idx..];
+        }
+
+        None
     }
 
     /// Detect document type from XML content
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 01278f3..40ae4a2 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -86,32 +86,29 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
     let xml_str = xml_str.trim();
 
     // Find the Document opening tag
-    if let Some(doc_start) = xml_str.find("<Document") {
-        // Find the end of the opening Document tag
-        if let Some(doc_end) = xml_str[doc_start..].find('>') {
-            let after_doc = &xml_str[doc_start + doc_end + 1..];
-
-            // Find the first element after Document
-            if let Some(elem_start) = after_doc.find('<')
-                && !after_doc[elem_start + 1..].starts_with('/')
-            {
-                let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
-                let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
-                    .map(|i| elem_name_start + i)
-                    .unwrap_or(after_doc.len());
-
-                let element_name = &after_doc[elem_name_start..elem_name_end];
-                // Remove namespace prefix if present
-                let element_name = if let Some(colon_pos) = element_name.rfind(':') {
-                    &element_name[colon_pos + 1..]
-                } else {
-                    element_name
-                };
-
-                return map_document_element_to_message_type(element_name);
-            }
+    if let Some((_, content_start)) = crate::xml::find_start_tag(xml_str, "Document") {
+        let after_doc = &xml_str[content_start..];
+
+        // Find the first element after Document
+        if let Some(elem_start) = after_doc.find('<')
+            && !after_doc[elem_start + 1..].starts_with('/')
+        {
+            let elem_name_start = elem_start + 1;
+            // Find the end of the element name (whitespace or >)
+            let elem_name_end = after_doc[elem_name_start..]
+                .find(|c: char| c.is_whitespace() || c == '>' || c == '/')
+                .map(|i| elem_name_start + i)
+                .unwrap_or(after_doc.len());
+
+            let element_name = &after_doc[elem_name_start..elem_name_end];
+            // Remove namespace prefix if present
+            let element_name = if let Some(colon_pos) = element_name.rfind(':') {
+                &element_name[colon_pos + 1..]
+            } else {
+                element_name
+            };
+
+            return map_document_element_to_message_type(element_name);
         }
     }
 
diff --git a/src/xml.rs b/src/xml.rs
index 5c8a6db..42bf9cf 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -9,6 +9,49 @@ use quick_xml::de::from_str as xml_from_str;
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
 
+/// Length of the tag at the start of `tag`, where '>' inside attribute values does not count
+pub(crate) fn start_tag_end(tag: &str) -> Option<usize> {
+    let mut quote = None;
+    for (idx, c) in tag.char_indices() {
+        match quote {
+            Some(q) if c == q => quote = None,
+            Some(_) => {}
+            None if c == '>' => return Some(idx + 1),
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None => {}
+        }
+    }
+    None
+}
+
+/// Find the first opening tag of element `name`: where it starts and where its content starts
+pub(crate) fn find_start_tag(xml: &str, name: &str) -> Option<(usize, usize)> {
+    let pattern = format!("<{}", name);
+    let (start, _) = xml.match_indices(&pattern).find(|(idx, _)| {
+        xml[idx + pattern.len()..].starts_with(|c: char| c.is_whitespace() || c == '>' || c == '/')
+    })?;
+    Some((start, start + start_tag_end(&xml[start..])?))
+}
+
+/// Value of attribute `name` of an opening tag
+pub(crate) fn tag_attribute(tag: &str, name: &str) -> Option<String> {
+    let mut rest = tag.get(tag.find(char::is_whitespace)?..)?;
+    loop {
+        let (key, value) = rest.split_once('=')?;
+        let value = value.trim_start();
+        let quote = value.chars().next().filter(|c| *c == '"' || *c == '\'')?;
+        let (value, tail) = value[1..].split_once(quote)?;
+        if key.trim() == name {
+            return Some(
+                quick_xml::escape::unescape(value)
+                    .map(|v| v.into_owned())
+                    .unwrap_or_else(|_| value.to_string()),
+            );
+        }
+        rest = tail;
+    }
+}
+
 /// Deserialize complete MX XML envelope (with AppHdr) to typed structs for validation
 /// This validates both the header and document structure
 /// Used by validation plugin for envelope validation
@@ -72,17 +115,12 @@ pub fn xml_to_json_via_document(
         .trim();
 
     // Find the Document wrapper and extract inner content
-    let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
-        if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
-            let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml
-                .rfind("</Document>")
-                .filter(|end_idx| *end_idx >= content_start)
-            {
-                &inner_xml[content_start..end_idx]
-            } else {
-                inner_xml
-            }
+    let inner_xml = if let Some((_, content_start)) = find_start_tag(inner_xml, "Document") {
+        if let Some(end_idx) = inner_xml
+            .rfind("</Document>")
+            .filter(|end_idx| *end_idx >= content_start)
+        {
+            &inner_xml[content_start..end_idx]
         } else {
             inner_xml
         }
-- 
2.43.0


From b2e22117e67285c16130fdea6cf18df69f01542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 17/25] fix: do not take MsgDefIdr of a related header in
 peek_message_type_from_xml

---
 src/mx_envelope.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 0357281..b5cb8f8 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -692,7 +692,12 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
         .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
 
-    if let Some(captures) = re.captures(xml)
+    // Related headers carry identifiers of other messages
+    let related = Regex::new(r"(?s)<Rltd>.*?</Rltd>")
+        .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
+    let xml = related.replace_all(xml, "");
+
+    if let Some(captures) = re.captures(&xml)
         && let Some(msg_def_idr) = captures.get(1)
     {
         // Read the text as the full parser does: entities resolved, outer whitespace dropped
-- 
2.43.0


From 81c876acb15415c64aec134e43263875e9bfe224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 18/25] fix: trim only XML whitespace in
 peek_message_type_from_xml

---
 src/mx_envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index b5cb8f8..b5eef1d 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -701,7 +701,7 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
         && let Some(msg_def_idr) = captures.get(1)
     {
         // Read the text as the full parser does: entities resolved, outer whitespace dropped
-        let msg_def_idr = quick_xml::escape::unescape(msg_def_idr.as_str().trim())
+        let msg_def_idr = quick_xml::escape::unescape(msg_def_idr.as_str().trim_ascii())
             .map_err(|e| MxError::XmlDeserialization(format!("Invalid MsgDefIdr: {}", e)))?;
         return Ok(normalize_message_type(&msg_def_idr));
     }
-- 
2.43.0


From 40ff6e7e7b1f7a2a03b32c667783f616097ec22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 19/25] fix: refuse a bare Document whose root element is of
 another type

---
 src/xml.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 42bf9cf..c4419db 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -116,6 +116,16 @@ pub fn xml_to_json_via_document(
 
     // Find the Document wrapper and extract inner content
     let inner_xml = if let Some((_, content_start)) = find_start_tag(inner_xml, "Document") {
+        // The root element must be the one of the requested message type
+        let root_type = crate::plugin::common::extract_message_type_from_xml(inner_xml)
+            .map_err(|e| MxError::XmlDeserialization(e.to_string()))?;
+        if root_type != message_type {
+            return Err(MxError::XmlDeserialization(format!(
+                "Document of type {} is not a {}",
+                root_type, message_type
+            )));
+        }
+
         if let Some(end_idx) = inner_xml
             .rfind("</Document>")
             .filter(|end_idx| *end_idx >= content_start)
-- 
2.43.0


From 8737eed6de037287b2af48681795007be167f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 20/25] fix: limit nesting depth in from_mx_xml_to_json instead
 of overflowing the stack

---
 src/xml.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index c4419db..bcb5977 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -276,6 +276,32 @@ pub fn xml_to_json_via_document(
     }))
 }
 
+/// Deepest element nesting accepted by the untyped conversion, which is recursive
+const MAX_DEPTH: usize = 128;
+
+/// Refuse XML that is nested too deeply to be converted without exhausting the stack
+fn check_depth(xml: &str) -> Result<(), XmlError> {
+    use quick_xml::events::Event;
+
+    let mut reader = quick_xml::Reader::from_str(xml);
+    let mut depth = 0usize;
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(_)) => depth += 1,
+            Ok(Event::End(_)) => depth = depth.saturating_sub(1),
+            // Malformed XML is reported by the deserializer
+            Ok(Event::Eof) | Err(_) => return Ok(()),
+            Ok(_) => {}
+        }
+        if depth > MAX_DEPTH {
+            return Err(MxError::XmlDeserialization(format!(
+                "XML parsing error: elements nested deeper than {}",
+                MAX_DEPTH
+            )));
+        }
+    }
+}
+
 /// Helper function to parse XML to JSON Value (for dataflow plugins)
 /// This function parses XML and converts it to a JSON structure
 ///
@@ -284,6 +310,8 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    check_depth(xml)?;
+
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
     let value: serde_json::Value = quick_xml::de::from_str(xml)
-- 
2.43.0


From baceb919e9ec26af40f27d3c0eb263da0d955eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 21/25] fix: do not alter backslash-n in the content parse_mx
 reads

---
 src/plugin/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c13313a..9d759ce 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -43,8 +43,7 @@ impl AsyncFunctionHandler for Parse {
             DataflowError::Validation("'target' parameter is required".to_string())
         })?;
 
-        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?
-            .replace("\\n", "\n");
+        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?;
 
         debug!(
             source_field = %source_field,
-- 
2.43.0


From 32fc33a534e22c2dd30d202d47490d3916ba8788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 22/25] fix: take MsgDefIdr from the header only in
 peek_message_type_from_xml

---
 src/mx_envelope.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index b5eef1d..5caa6d9 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -692,10 +692,11 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
         .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
 
-    // Related headers carry identifiers of other messages
+    // Only the header tells the type; related headers in it carry identifiers of other messages
     let related = Regex::new(r"(?s)<Rltd>.*?</Rltd>")
         .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
-    let xml = related.replace_all(xml, "");
+    let app_hdr = MxMessage::extract_section(xml, "AppHdr");
+    let xml = related.replace_all(app_hdr.as_deref().unwrap_or(xml), "");
 
     if let Some(captures) = re.captures(&xml)
         && let Some(msg_def_idr) = captures.get(1)
-- 
2.43.0


From 83d8786c8877c26e87b3caa025f17cfcafb524cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 23/25] fix: comments, processing instructions and CDATA
 sections around and in header and document

---
 src/mx_envelope.rs     |  5 ++++-
 src/plugin/common.rs   |  1 +
 src/plugin/parse.rs    |  2 ++
 src/plugin/validate.rs |  2 ++
 src/xml.rs             | 48 ++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 5caa6d9..6b85ae3 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -6,7 +6,7 @@ use serde::{Deserialize, Serialize};
 use crate::error::MxError;
 pub use crate::header::AppHdr;
 use crate::message_registry;
-use crate::xml::{find_start_tag, start_tag_end, tag_attribute};
+use crate::xml::{find_start_tag, plain_markup, start_tag_end, tag_attribute};
 
 /// Document enum - represents the Document element in MX messages
 /// Each variant uses serde rename to match the XML element name
@@ -397,6 +397,8 @@ impl MxMessage {
 
     /// Deserialize from XML string using quick-xml with custom enum handling
     pub fn from_xml(xml: &str) -> Result<Self, MxError> {
+        let xml = &*plain_markup(xml);
+
         // Check if XML contains full envelope or just Document
         let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
@@ -695,6 +697,7 @@ pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     // Only the header tells the type; related headers in it carry identifiers of other messages
     let related = Regex::new(r"(?s)<Rltd>.*?</Rltd>")
         .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
+    let xml = &*plain_markup(xml);
     let app_hdr = MxMessage::extract_section(xml, "AppHdr");
     let xml = related.replace_all(app_hdr.as_deref().unwrap_or(xml), "");
 
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 40ae4a2..1e3cbe9 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -83,6 +83,7 @@ pub fn extract_message_type(data: &Value) -> Result<String> {
 /// * Ok(message_type) - The extracted message type
 /// * Err(error) - If message type cannot be determined
 pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
+    let xml_str = crate::xml::plain_markup(xml_str);
     let xml_str = xml_str.trim();
 
     // Find the Document opening tag
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 9d759ce..b40e6a5 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -69,6 +69,8 @@ impl Parse {
 
         debug!("Parsing XML to JSON using MxMessage API");
 
+        let xml_str = &*crate::xml::plain_markup(xml_str);
+
         // Check if XML has full envelope or just Document
         let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
 
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a5ada02..6f95a45 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -107,6 +107,8 @@ impl Validate {
         let mut errors: Vec<String> = Vec::new();
         let warnings: Vec<String> = Vec::new();
 
+        let xml_content = &*crate::xml::plain_markup(xml_content);
+
         // Check if XML has full envelope or just Document
         let has_envelope = xml_content.contains("<AppHdr") || xml_content.contains("<Envelope");
 
diff --git a/src/xml.rs b/src/xml.rs
index bcb5977..4aa6279 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -24,6 +24,50 @@ pub(crate) fn start_tag_end(tag: &str) -> Option<usize> {
     None
 }
 
+/// Reduce XML to tags and escaped text: comments and processing instructions are not part of
+/// the message and are removed, CDATA sections are replaced by the text they stand for
+pub(crate) fn plain_markup(xml: &str) -> std::borrow::Cow<'_, str> {
+    let mut plain = String::new();
+    let mut plain_to = 0;
+    let mut pos = 0;
+    while let Some(idx) = xml[pos..].find('<') {
+        let start = pos + idx;
+        let Some((open, close)) = [("<!--", "-->"), ("<?", "?>"), ("<![CDATA[", "]]>")]
+            .into_iter()
+            .find(|(open, _)| xml[start..].starts_with(open))
+        else {
+            pos = start + 1;
+            continue;
+        };
+        let content = start + open.len();
+        // Markup that does not end is left for the parser to refuse
+        let Some(len) = xml[content..].find(close) else {
+            break;
+        };
+        pos = content + len + close.len();
+
+        plain.push_str(&xml[plain_to..start]);
+        if open == "<![CDATA[" {
+            for c in xml[content..content + len].chars() {
+                match c {
+                    // Character references, as white space of CDATA must not be trimmed
+                    '<' | '>' | '&' | ' ' | '\t' | '\n' | '\r' => {
+                        plain.push_str(&format!("&#{};", c as u32))
+                    }
+                    c => plain.push(c),
+                }
+            }
+        }
+        plain_to = pos;
+    }
+
+    if plain_to == 0 {
+        return xml.into();
+    }
+    plain.push_str(&xml[plain_to..]);
+    plain.into()
+}
+
 /// Find the first opening tag of element `name`: where it starts and where its content starts
 pub(crate) fn find_start_tag(xml: &str, name: &str) -> Option<(usize, usize)> {
     let pattern = format!("<{}", name);
@@ -58,6 +102,8 @@ pub(crate) fn tag_attribute(tag: &str, name: &str) -> Option<String> {
 pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), XmlError> {
     use crate::mx_envelope::MxMessage;
 
+    let xml = &*plain_markup(xml);
+
     // Check if XML contains AppHdr (full envelope) or just Document
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
@@ -108,6 +154,8 @@ pub fn xml_to_json_via_document(
     use crate::document::*;
     use serde_json::json;
 
+    let xml = &*plain_markup(xml);
+
     // Extract inner XML (strip Document wrapper and XML declaration)
     let inner_xml = xml
         .trim()
-- 
2.43.0


From 35b61090e93449fbc355fc5b61ab009e8c926494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 24/25] fix: keep white space around texts and carriage returns
 when writing XML

---
 src/mx_envelope.rs |  4 ++--
 src/xml.rs         | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 6b85ae3..de09cda 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -6,7 +6,7 @@ use serde::{Deserialize, Serialize};
 use crate::error::MxError;
 pub use crate::header::AppHdr;
 use crate::message_registry;
-use crate::xml::{find_start_tag, plain_markup, start_tag_end, tag_attribute};
+use crate::xml::{find_start_tag, keep_white_space, plain_markup, start_tag_end, tag_attribute};
 
 /// Document enum - represents the Document element in MX messages
 /// Each variant uses serde rename to match the XML element name
@@ -250,7 +250,7 @@ impl MxMessage {
         xml.push_str("</Document>");
         xml.push_str("</Envelope>");
 
-        Ok(xml)
+        Ok(keep_white_space(&xml))
     }
 
     /// Serialize document based on its variant
diff --git a/src/xml.rs b/src/xml.rs
index 4aa6279..97ce5a0 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -68,6 +68,40 @@ pub(crate) fn plain_markup(xml: &str) -> std::borrow::Cow<'_, str> {
     plain.into()
 }
 
+/// Write the white space of generated XML that a reader would drop or change (around a text,
+/// carriage returns, line breaks in an attribute value) as character references
+pub(crate) fn keep_white_space(xml: &str) -> String {
+    const WHITE_SPACE: [char; 4] = [' ', '\t', '\n', '\r'];
+
+    fn push(out: &mut String, part: &str, as_reference: &[char]) {
+        for c in part.chars() {
+            if as_reference.contains(&c) {
+                out.push_str(&format!("&#{};", c as u32));
+            } else {
+                out.push(c);
+            }
+        }
+    }
+
+    let mut kept = String::with_capacity(xml.len());
+    let mut rest = xml;
+    while let Some(tag_start) = rest.find('<') {
+        let (text, tag) = rest.split_at(tag_start);
+        let (tag, after) = tag.split_at(start_tag_end(tag).unwrap_or(tag.len()));
+        let body = text.trim_start_matches(WHITE_SPACE);
+        let (before, body) = text.split_at(text.len() - body.len());
+        let (body, behind) = body.split_at(body.trim_end_matches(WHITE_SPACE).len());
+
+        push(&mut kept, before, &WHITE_SPACE);
+        push(&mut kept, body, &['\r']);
+        push(&mut kept, behind, &WHITE_SPACE);
+        push(&mut kept, tag, &WHITE_SPACE[1..]);
+        rest = after;
+    }
+    kept.push_str(rest);
+    kept
+}
+
 /// Find the first opening tag of element `name`: where it starts and where its content starts
 pub(crate) fn find_start_tag(xml: &str, name: &str) -> Option<(usize, usize)> {
     let pattern = format!("<{}", name);
-- 
2.43.0


From 8df8825c6e10e18316bee9e5a54c011a99dce369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 25/25] fix: white space at the end of tags in framing and
 header

---
 src/xml.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 97ce5a0..a4081d0 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -24,8 +24,8 @@ pub(crate) fn start_tag_end(tag: &str) -> Option<usize> {
     None
 }
 
-/// Reduce XML to tags and escaped text: comments and processing instructions are not part of
-/// the message and are removed, CDATA sections are replaced by the text they stand for
+/// Reduce XML to plain tags and escaped text: comments and processing instructions are not part
+/// of the message and are removed, CDATA sections are replaced by the text they stand for
 pub(crate) fn plain_markup(xml: &str) -> std::borrow::Cow<'_, str> {
     let mut plain = String::new();
     let mut plain_to = 0;
@@ -36,7 +36,18 @@ pub(crate) fn plain_markup(xml: &str) -> std::borrow::Cow<'_, str> {
             .into_iter()
             .find(|(open, _)| xml[start..].starts_with(open))
         else {
-            pos = start + 1;
+            // White space at the end of a tag
+            let Some(len) = start_tag_end(&xml[start..]) else {
+                break;
+            };
+            pos = start + len;
+            let tag = xml[start..pos].trim_end_matches('>');
+            if tag.ends_with(char::is_whitespace) {
+                plain.push_str(&xml[plain_to..start]);
+                plain.push_str(tag.trim_end());
+                plain.push('>');
+                plain_to = pos;
+            }
             continue;
         };
         let content = start + open.len();
-- 
2.43.0

