From a12aaba1b31f0261406b3ea47340f7446ba20848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/48] fix: a layer that takes over the set of its spans keeps
 its other attributes

---
 src/document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..51f3fe4 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,10 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                //add to the existing attributes rather than replace them
+                for attribute in add_attributes {
+                    element.set_attrib(attribute);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From d559eeda08a5c5fc97b7d5b90012eca9f7181c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/48] fix: parse the begin and end times of processors

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 0dea3eb150e21999c538285d2547989273708261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/48] fix: do not escape special characters in XML comments

---
 src/serialiser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..29818f2 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -289,7 +289,7 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    let text = BytesText::from_escaped_str(comment.as_str()); //there is no escaping in comments
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 8c5771d4a2ccfb54a1a6f4e3911b49c74d5863be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 04/48] fix: chaining more than two selectors no longer drops
 the ones in between

---
 src/select.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..fa79000 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -192,7 +192,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = match self.next {
+            Some(next) => Some(Box::new(next.and(selector))),
+            None => Some(Box::new(selector)),
+        };
         self
     }
 
-- 
2.43.0


From a048634aedf72d063b0273605c6433e4ec5de0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/48] fix: a union of selectors is matchable if any of its
 members is

---
 src/select.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index fa79000..0bb47c6 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -204,9 +204,10 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
-        self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        (self.set != Cmp::Unmatchable &&
+         self.class != Cmp::Unmatchable &&
+         self.processor != Cmp::Unmatchable) ||
+        self.next.as_ref().map(|next| next.matchable()).unwrap_or(false)
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From 02254be5ad069cfa8cd6c317de60b364c07f5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 06/48] fix: queries constrain on annotator, annotator type and
 confidence

---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 0bb47c6..641e0ee 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -143,6 +143,9 @@ impl Selector {
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         Ok(selector)
     }
 
@@ -232,7 +235,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From 25186e1c3cb9ba30f653cfaf2d77678b2c540911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 07/48] fix: resolve the set of features through their context,
 also if no subset is asked for

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 641e0ee..89441d6 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -48,8 +48,8 @@ impl Selector {
         selector.datatypes = vec![DataTypeSelector::Elements];
         //if we have subsets, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
-        let elementtype_source: &Cmp<ElementType> = match &query.subset {
-            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
+        let elementtype_source: &Cmp<ElementType> = match (&query.subset, &query.elementtype) {
+            (Cmp::Some, _) | (Cmp::Is(_), _) | (_, Cmp::Is(ElementType::Feature)) =>  &query.contexttype,
             _ => &query.elementtype,
         };
         selector.set = match &query.set {
-- 
2.43.0


From a3ae7088bc28cc56c3bb0132d8b14bed94d99fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 08/48] fix: common_ancestors() does not start over when
 nothing is shared so far

---
 src/select.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 89441d6..4c6c100 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -715,17 +715,16 @@ impl Document {
     }
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
-        let mut result: Vec<ElementKey> = Vec::new();
+        let mut result: Option<Vec<ElementKey>> = None;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
-                    result = ancestors.into_iter().collect();
-                } else {
-                    result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-                }
+                result = match result {
+                    None => Some(ancestors),
+                    Some(result) => Some(result.into_iter().filter(|a| ancestors.contains(a)).collect()),
+                };
             }
         }
-        result
+        result.unwrap_or_default()
     }
 }
-- 
2.43.0


From 0841d23669683ddc4b9bd2e95fa5009bfc18b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 09/48] fix: reuse the existing layer of the common ancestor
 for span annotations

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 51f3fe4..a716255 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -550,7 +550,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From 02bab05fc1ccce814536392a1edc7051986f7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 10/48] fix: displaying an attribute type no longer recurses
 forever

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..78fe893 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let s: &str = (*self).into();
+        write!(f, "{}", s)
     }
 }
 
-- 
2.43.0


From 46fe76a852449ac367c6cdb578d504acc68bdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 11/48] fix: support the tag attribute

---
 src/attrib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 78fe893..72b95b5 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -101,6 +101,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -149,7 +150,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -226,7 +227,8 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
-            Attribute::NewPage(_) => AttribType::NEWPAGE
+            Attribute::NewPage(_) => AttribType::NEWPAGE,
+            Attribute::Tag(_) => AttribType::TAG
         }
     }
 
@@ -349,6 +351,9 @@ impl Attribute {
                         _ => Err(FoliaError::ParseError(format!("Invalid newpage value: '{}'", value)))
                     }
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"ref" => {
                     Ok(Attribute::Ref(value))
                 },
-- 
2.43.0


From 20910d32516aa6d381da51860510ad9ef80e6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 12/48] fix: an empty XML tag means the same as a start tag
 followed by an end tag

Declarations, metadata and bodies in empty-tag notation were ignored.
---
 src/document.rs |  2 ++
 src/parser.rs   | 86 ++++++++++++++-----------------------------------
 2 files changed, 26 insertions(+), 62 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a716255..9dbdfaf 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -135,6 +135,7 @@ impl Document {
     pub fn from_file(filename: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
         let mut reader = Reader::from_file(Path::new(filename))?;
         reader.trim_text(false);
+        reader.expand_empty_elements(true); //<tag/> means precisely the same as <tag></tag>
         let mut doc = Self::parse(&mut reader, properties)?;
         //associate the filename with the document
         doc.filename = Some(filename.to_string());
@@ -145,6 +146,7 @@ impl Document {
     pub fn from_str(data: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
         let mut reader = Reader::from_str(data);
         reader.trim_text(false);
+        reader.expand_empty_elements(true); //<tag/> means precisely the same as <tag></tag>
         Self::parse(&mut reader, properties)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..db88be9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -95,46 +95,6 @@ impl Document {
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
-                (ref ns, Event::Empty(ref e)) => {
-                    match (*ns, e.local_name())  {
-                        (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
-                            let processor = Processor::parse(&reader, &e)
-                                                      .map_err(FoliaError::add_parseerror("Error parsing processor"))?;
-                            if processor_stack.is_empty() {
-                                doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
-                            } else {
-                                let parent_key = processor_stack.last().expect("Polling processor stack");
-                                doc.add_subprocessor(*parent_key, processor).map_err(FoliaError::add_parseerror("Error adding subprocessor"))?;
-                            }
-                        },
-                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if let Some(processor_id) = processor_id {
-                                if let Some(declaration_key) = declaration_key {
-                                    //add to a temporary structure because we don't know about the
-                                    //processors yet at this stage, provenance still has to be
-                                    //parsed, after that we resolve everything from this structure.
-                                    annotators.push((declaration_key, processor_id));
-                                }
-                            }
-                        },
-                        _ => {
-                        }
-                    }
-                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
@@ -209,6 +169,30 @@ impl Document {
                                 processor_stack.push(processor_key);
                             }
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            let mut processor_id: Option<String> = None;
+                            for attrib in e.attributes() {
+                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                    match attrib.key {
+                                        b"processor" => {
+                                            processor_id = Some(value.clone());
+                                        },
+                                        otherwise => {
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        }
+                                    }
+                                }
+                            }
+                            if let Some(processor_id) = processor_id {
+                                if let Some(declaration_key) = declaration_key {
+                                    //add to a temporary structure because we don't know about the
+                                    //processors yet at this stage, provenance still has to be
+                                    //parsed, after that we resolve everything from this structure.
+                                    annotators.push((declaration_key, processor_id));
+                                }
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             let result = doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
@@ -344,28 +328,6 @@ impl Document {
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
-                    (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
-                        //EMPTY TAG FOUND (<tag/>)
-                        //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
-                        let (elem, children) = ElementData::parse(reader, e)
-                                                .map_err(FoliaError::add_parseerror_string(
-                                                         format!("Error parsing <{}/>", tagname))  )?;
-                        let key = self.add(elem,stack.last().map(|key| *key))
-                                                .map_err(FoliaError::add_parseerror_string(
-                                                         format!("Error adding <{}/>", tagname))  )?;
-
-                        // Since there is no Event::End after, directly append it to the current node
-                        if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
-                        }
-                        //add immediate children (limited to those derived from XML attributes)
-                        for child in children {
-                            let child_key = self.add(child, Some(key))?;
-                            self.attach_element(key, child_key)?;
-                        }
-                        self.post_add(key, Some(&stack))?;
-                    },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-- 
2.43.0


From 0cbcc50493795b2ace1b58bc66728f9c3fe8a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 13/48] fix: refuse documents that end before their body is
 complete

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index db88be9..438bcbe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -401,7 +401,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From a8e64c1334cb45e8bc39bc67b8a9c1ebd5d7138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 14/48] fix: report malformed attributes and names as errors
 instead of panicking

---
 src/attrib.rs |  2 +-
 src/parser.rs | 57 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 72b95b5..29c39b6 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -378,7 +378,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index 438bcbe..eb8c045 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -99,7 +99,7 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"src" => {
@@ -109,7 +109,7 @@ impl Document {
                                             doc.metadata.metadatatype = Some(value);
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -123,7 +123,7 @@ impl Document {
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"xml:id" => {
@@ -133,7 +133,7 @@ impl Document {
                                             submetadata_type = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -144,14 +144,14 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -172,14 +172,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"processor" => {
                                             processor_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -199,13 +199,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -296,10 +296,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -331,7 +331,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -356,7 +356,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = decode_name(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -413,6 +413,11 @@ impl Document {
     }
 }
 
+///Decodes the name of a tag
+fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
+    str::from_utf8(name).map_err(|e| FoliaError::ParseError(format!("Name is not valid utf-8: {}", e)))
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -438,7 +443,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -473,7 +478,7 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
             }
@@ -487,7 +492,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -501,7 +506,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -525,7 +530,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = decode_name(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -535,12 +540,12 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(decode_name(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -559,7 +564,7 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
-- 
2.43.0


From e6140a2273209e02a81703904be6907272a8e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 15/48] fix: keep the complete value of metadata fields,
 including empty ones and CDATA

---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eb8c045..d47b855 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,6 +143,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -156,7 +157,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -214,7 +215,15 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
+                },
+                (None, Event::CData(s)) => {
+                    let text_s = reader.decode(&s)?;
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -257,6 +266,7 @@ impl Document {
                                     doc.metadata.data.insert(meta_id.clone(), text.clone());
                                 }
                             }
+                            text = None;
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             //nothing to do
-- 
2.43.0


From 23ab93eb3247af229ca0a7e0263586b92ac42d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 16/48] fix: load and save submetadata

---
 src/parser.rs     | 16 +++++++++-------
 src/serialiser.rs |  6 +++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d47b855..0f271f5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -122,6 +121,8 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            submetadata = None;
+                            let mut metadata = Metadata::default();
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -130,7 +131,10 @@ impl Document {
                                             submetadata = Some(value.clone());
                                         },
                                         b"type" => {
-                                            submetadata_type = Some(value.clone());
+                                            metadata.metadatatype = Some(value.clone());
+                                        },
+                                        b"src" => {
+                                            metadata.src = Some(value.clone());
                                         },
                                         otherwise => {
                                             eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
@@ -138,8 +142,9 @@ impl Document {
                                     }
                                 }
                             }
-                            if submetadata.is_none() {
-                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
+                            match &submetadata {
+                                Some(id) => { doc.submetadata.insert(id.clone(), metadata); },
+                                None => return Err(FoliaError::ParseError("Submetadata has no ID".to_string())),
                             }
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
@@ -257,9 +262,6 @@ impl Document {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 29818f2..92adda4 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From e22d42b28151797266212c15281baec9f3a2a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 17/48] fix: resolve word references once all elements are
 loaded

A span may precede the words it refers to, documents in which this is the
case could be built and saved but not loaded.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f271f5..53ee822 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -337,6 +337,7 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut wrefs: Vec<ElementKey> = Vec::new(); //word references, these may refer to elements further on in the document
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -364,7 +365,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map(|elem| elem.elementtype) == Some(ElementType::WordReference) {
+                            wrefs.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -418,6 +423,9 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for key in wrefs {
+                self.post_add(key, None)?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
-- 
2.43.0


From 2a8eed57cbdbe28356e1e49d5c18871afaf7c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 18/48] fix: whitespace inside text content is text

---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 53ee822..a993593 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -389,7 +389,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.in_textcontainer(&stack)) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -399,7 +399,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = reader.decode(&s)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.in_textcontainer(&stack)) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
@@ -431,6 +431,16 @@ impl Document {
             Err(FoliaError::InternalError("No root element".to_string()))
         }
     }
+
+    ///Tests if the innermost element on the stack holds text, whitespace is significant there
+    fn in_textcontainer(&self, stack: &Vec<ElementKey>) -> bool {
+        if let Some(element) = stack.last().and_then(|key| self.get_elementdata(*key)) {
+            let properties = self.props(element.elementtype);
+            properties.textcontainer || properties.phoncontainer
+        } else {
+            false
+        }
+    }
 }
 
 ///Decodes the name of a tag
-- 
2.43.0


From 6aecabe3b4b2daf646ed18d4962fbd7f238b452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 19/48] fix: do not add whitespace to elements that contain
 text when serialising

---
 src/serialiser.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 92adda4..b683508 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -27,6 +27,11 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///The writer puts no line break and indentation before a tag that follows text
+fn suppress_indentation(writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
+    writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -212,14 +217,18 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        let mut stack: Vec<(BytesEnd,ElementType,String,bool)> = vec![]; //the boolean indicates whether whitespace is significant
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,elementtype,_tagstring,mixed)) = stack.pop() {
+                    if mixed {
+                        suppress_indentation(writer)?;
+                    }
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    let in_mixed = stack.last().map(|(_,_,_,mixed)| *mixed).unwrap_or(false);
+                    if !in_mixed && !ElementGroup::TextMarkup.contains(elementtype) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -228,6 +237,7 @@ impl Document {
                 }
                 previous_depth -= 1;
             }
+            let in_mixed = stack.last().map(|(_,_,_,mixed)| *mixed).unwrap_or(false);
             match item.data {
                 DataType::Element(key) => {
                     if let Some(element) = self.get_element(*key) {
@@ -272,6 +282,12 @@ impl Document {
                                 }
                             }
                         }
+                        if in_mixed {
+                            suppress_indentation(writer)?;
+                        }
+                        let properties = self.props(element.elementtype());
+                        let mixed = in_mixed || properties.textcontainer || properties.phoncontainer ||
+                                    element.data.data.iter().any(|item| if let DataType::Text(_) = item { true } else { false });
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
@@ -279,9 +295,9 @@ impl Document {
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            stack.push((end,element.elementtype(),tagstring,mixed));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !mixed && !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -293,6 +309,9 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
+                    if in_mixed {
+                        suppress_indentation(writer)?;
+                    }
                     let text = BytesText::from_escaped_str(comment.as_str()); //there is no escaping in comments
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
@@ -304,7 +323,10 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, _elementtype, _tagstring, mixed)) = stack.pop() {
+            if mixed {
+                suppress_indentation(writer)?;
+            }
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From efe59ebe90790a3e641cf11e94e11222b61f25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 20/48] fix: serialise the processor of features and elements
 without a declaration

---
 src/serialiser.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index b683508..0e3c496 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -264,22 +264,17 @@ impl Document {
                             if let Some(class) = element.class() {
                                 start.push_attribute(("class", class) );
                             }
-                            if let Some(processor) = element.processor() {
-                                //check if this processor is the default one, if so we don't need
-                                //to serialise it
-                                let is_default: bool = if let Some(declaration) = self.get_declaration(declaration_key) {
-                                    if declaration.processors.len() == 1 {
-                                        declaration.processors.get(0) == element.processor_key().as_ref()
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                };
+                        }
+                        if let Some(processor) = element.processor() {
+                            //check if this processor is the default one, if so we don't need
+                            //to serialise it (features and elements without declaration have no default)
+                            let is_default: bool = match element.get_declaration() {
+                                Some(declaration) => element.elementtype() != ElementType::Feature && declaration.default_processor() == element.processor_key(),
+                                None => false,
+                            };
 
-                                if !is_default {
-                                    start.push_attribute(("processor", processor) );
-                                }
+                            if !is_default {
+                                start.push_attribute(("processor", processor) );
                             }
                         }
                         if in_mixed {
-- 
2.43.0


From 70af36e78062f4e4673ab5aa4409b640221769ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 21/48] fix: serialise the set of annotations without a class

Without it the association with the declaration was lost upon loading.
---
 src/serialiser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 0e3c496..e4afff5 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -250,9 +250,11 @@ impl Document {
                                 start.push_attribute((attrib.attribtype().into(), format!("{}",attrib).as_str() ));
                             }
                         }
+                        //if none of these attributes are serialised, nothing tells that the element is associated with a declaration
+                        let bare = element.class().is_none() && element.subset().is_none();
                         if let Some(declaration_key) = element.declaration_key() {
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            if (bare || !dec_is_default.get(declaration_key as usize).expect("checking default")) && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
@@ -269,7 +271,7 @@ impl Document {
                             //check if this processor is the default one, if so we don't need
                             //to serialise it (features and elements without declaration have no default)
                             let is_default: bool = match element.get_declaration() {
-                                Some(declaration) => element.elementtype() != ElementType::Feature && declaration.default_processor() == element.processor_key(),
+                                Some(declaration) => element.elementtype() != ElementType::Feature && declaration.default_processor() == element.processor_key() && !(bare && element.set().is_none()),
                                 None => false,
                             };
 
-- 
2.43.0


From a3d599384612509917c3f1e49f2266fc6a0789ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 22/48] fix: text() only returns text of the requested text
 class

---
 src/text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..80cb375 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -93,6 +93,9 @@ impl<'a> Element<'a> {
         } else if !properties.printable || properties.hidden {
             Err(FoliaError::NoTextError("No such text".to_string()))
         } else {
+            //the class the text content must have (text content without a class is of the class "current")
+            let textclass_name = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass)).unwrap_or("current");
+
             //Get text from children first
             let mut delimiter: String = String::new();
             let mut text: String = String::new();
@@ -122,7 +125,7 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.class().unwrap_or("current") == textclass_name {
                             textcontent_element = Some(element);
                         }
                     }
-- 
2.43.0


From 45667ac3cce857338a15a43e7f5db537440562f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 23/48] fix: the text of a correction is its new or current
 text, span roles contribute to the text of spans

---
 src/text.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 80cb375..9a4865e 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -10,6 +10,7 @@ use crate::elementstore::*;
 use crate::store::*;
 use crate::metadata::*;
 use crate::select::*;
+use crate::query::*;
 use crate::document::*;
 
 #[derive(Clone)]
@@ -105,6 +106,8 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           self.is_corrected(&element) ||
+                           ElementGroup::SpanRole.contains(element.elementtype()) ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
@@ -149,6 +152,16 @@ impl<'a> Element<'a> {
         }
     }
 
+    ///Tests if the child holds the text of this correction, i.e. the new text or, if nothing was
+    ///corrected yet, the current text
+    fn is_corrected(&self, child: &Element) -> bool {
+        match (self.elementtype(), child.elementtype()) {
+            (ElementType::Correction, ElementType::New) => true,
+            (ElementType::Correction, ElementType::Current) => self.get_element(ElementType::New, Cmp::Any, Recursion::No).is_none(),
+            _ => false
+        }
+    }
+
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
@@ -158,6 +171,9 @@ impl<'a> Element<'a> {
             for item in self.elementdata().data.iter().rev() {
                 if let DataType::Element(element_key) = item {
                     if let Some(element) = doc.get_element(*element_key) {
+                        if self.elementtype() == ElementType::Correction && !self.is_corrected(&element) {
+                            continue;
+                        }
                         //recurse
                         match element.get_textdelimiter(retaintokenisation) {
                             Ok(Cow::Borrowed(s)) => {
-- 
2.43.0


From c085b4803bc6282a564f9afbe922261838f1ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 24/48] fix: elements without text inside text content do not
 make all text inaccessible

---
 src/text.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 9a4865e..547466a 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -82,8 +82,9 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
+                                if let Ok(textpart) = element.text_by_key(set,textclass,strict, retaintokenisation,None) {
+                                    text += &textpart;
+                                }
                             }
                         }
                     },
-- 
2.43.0


From 6592dafc4b25de65487d507dd5ba0b67a7aa2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 25/48] fix: querying for a subset of a set that is not in the
 document matches nothing

get_features() panicked on elements without a declaration.
---
 src/select.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index 4c6c100..6c3719c 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -92,6 +92,8 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
+                } else if let (Cmp::Unmatchable, Cmp::Is(_)) = (&selector.set, &selector.contexttype) {
+                    //the set does not occur in this document, so neither does the subset
                 } else {
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
-- 
2.43.0


From 048cfc832715d8446f2363348980b32180cf993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 26/48] fix: iterate rather than recurse over items that do not
 match

Selecting few elements in a large document overflowed the stack.
---
 src/select.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 6c3719c..00a4661 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -418,7 +418,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -455,14 +455,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -591,21 +589,16 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
-                _ => {
-                    //recurse
-                    self.next()
-                }
+                _ => {}
             }
-        } else {
-            None
         }
+        None
     }
 
 }
-- 
2.43.0


From 8aa6b51109b98e13445491abf201bc85a4985793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 27/48] fix: features inherit the set of the annotation they
 are in

A feature in an element without annotation type is an error rather than a panic.
---
 src/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9dbdfaf..1ede90f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -829,8 +829,12 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        let annotationtype = parent.elementtype.annotationtype().ok_or( FoliaError::ValidationError(format!("A feature can not be added to {}", parent.elementtype)))?;
+                        let parent_deckey = parent.declaration_key()?;
+                        let deckey = match (element.set()?, parent_deckey) {
+                            (None, Some(deckey)) => deckey, //the feature is in the set of its parent
+                            (set, _) => self.declare(annotationtype, &set.map(|s| s.to_string()),  &None, &None)?,
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-- 
2.43.0


From 8f4cdcf199eb1c9fddf94a3102b5859cb15dba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 28/48] fix: refuse elements with an ID that is already in use

Such elements were silently dropped in favour of the existing element.
---
 src/document.rs | 8 ++++++++
 src/store.rs    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 1ede90f..645bdc7 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -784,6 +784,14 @@ impl Store<ElementData,ElementKey> for Document {
         self.elementstore.items.iter()
     }
 
+    ///The ID of an element must be unique in the document
+    fn check_addable(&self, element: &ElementData) -> Result<(), FoliaError> {
+        match element.id() {
+            Some(id) if self.elementstore.index.contains_key(id) => Err(FoliaError::KeyError(format!("Duplicate ID: {}", id))),
+            _ => Ok(())
+        }
+    }
+
     ///Actively encode element for storage, this encodes attributes that need to be encoded (such as set,class,processor), and adds them to their respective stores.
     ///It does not handle relations between elements (data/children and parent)
     ///nor does it add the element itself to the store
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..e546564 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -53,8 +53,16 @@ pub trait Store<T,Key> where T: Storable<Key>,
        Ok(item) //we assume the item does not need to be decoded by default
     }
 
+    ///Tests if the item may be added to the store. By default anything goes, adding an item with an
+    ///ID that is already in the store merely returns the key of the existing item.
+    fn check_addable(&self, _item: &T) -> Result<(),FoliaError> {
+        Ok(())
+    }
+
     ///Add a new item to the store (takes ownership)
     fn add(&mut self, mut item: T, context: Option<Key>) -> Result<Key,FoliaError> {
+        self.check_addable(&item)?;
+
         if item.encodable() {
             item = self.encode(item, context)?;
         }
-- 
2.43.0


From 5bd94f73835e4bcc2aca00906c03c72fe5bce4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 29/48] fix: refuse to attach an element to its own descendants

---
 src/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 645bdc7..a072e0d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -272,6 +272,14 @@ impl Document {
         if !self.get(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
+        //an element can not be in its own subtree
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Element {} can not be attached to itself or one of its descendants", child_key)));
+            }
+            ancestor_key = self.get_elementdata(key).and_then(|element| element.parent_key());
+        }
 
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
-- 
2.43.0


From 2c9166683368d84dc0ac97e3049f51a72d643d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 30/48] fix: a processor occurs in the provenance chain only
 once, below a single parent

---
 src/document.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a072e0d..2f71b93 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -414,7 +414,10 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            let placed = self.provenancestore.chain.contains(&child_key) || self.get_processor(child_key).map(|processor| processor.parent.is_some()).unwrap_or(false);
+            if !placed { //adding a processor that is already there leaves it where it is
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -444,14 +447,29 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //a processor can not be its own subprocessor
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or one of its subprocessors", child_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //detach the child from the old parent or from the top of the provenance chain
+        if let Some(oldparent) = oldparent_key.and_then(|key| self.get_mut_processor(key)) {
+            oldparent.processors.retain(|key| *key != child_key);
+        }
+        self.provenancestore.chain.retain(|key| *key != child_key);
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
-- 
2.43.0


From 81b41d043200e528c052014de8eec899c51e01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 31/48] fix: add elements top-down, and only if everything in
 them can be added

---
 src/document.rs | 156 +++++++++++++++++++++++++++++-------------------
 1 file changed, 96 insertions(+), 60 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 2f71b93..3a65807 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -7,7 +7,7 @@ use std::str;
 use std::str::FromStr;
 use std::borrow::Cow;
 use std::string::ToString;
-use std::collections::HashMap;
+use std::collections::{HashMap,HashSet};
 
 use quick_xml::{Reader,Writer};
 use quick_xml::events::{Event,BytesStart,BytesEnd,BytesText};
@@ -174,8 +174,8 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        self.check_addition(None, None, &element)?;
+        self.add_subtree(None, element)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -198,71 +198,107 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
-            Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
-                }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
-                Ok(child_key)
-            },
-            Err(err) => {
-                Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
-            }
+        let parent_type = match self.get_elementdata(parent_key) {
+            Some(parent) => parent.elementtype,
+            None => return Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", parent_key)))
+        };
+        self.check_addition(Some(parent_key), Some(parent_type), &element)?;
+        self.add_subtree(Some(parent_key), element)
+    }
+
+    ///Adds the element and all 'unborn' elements in it, top-down and in document order. Things that
+    ///point at other elements are only resolved once all elements are there.
+    fn add_subtree(&mut self, parent_key: Option<ElementKey>, element: ElementData) -> Result<ElementKey, FoliaError> {
+        let mut references: Vec<ElementKey> = Vec::new();
+        let key = self.add_subtree_to(parent_key, element, &mut references)?;
+        for reference_key in references {
+            self.post_add(reference_key, None)?;
         }
+        Ok(key)
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
+    fn add_subtree_to(&mut self, parent_key: Option<ElementKey>, mut element: ElementData, references: &mut Vec<ElementKey>) -> Result<ElementKey, FoliaError> {
+        let elementtype = element.elementtype;
+        let data = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
+        }
+        for item in data {
+            if let DataType::AddElement(child) = item {
+                self.add_subtree_to(Some(key), child, references)?;
+            } else if let Some(element) = self.get_mut_elementdata(key) {
+                element.push(item);
             }
         }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
+        if elementtype != ElementType::WordReference {
+            self.post_add(key, None)?;
+        } else if parent_key.is_some() {
+            references.push(key);
+        }
+        Ok(key)
+    }
+
+    ///Checks if the element, and everything in it, can be added. This is called before anything is
+    ///added so the document is not affected if it can not. ``context_key`` is the existing element it
+    ///will end up in, and ``parent_type`` is the type of its parent (which is either the context
+    ///itself or a layer that is yet to be added to it).
+    fn check_addition(&self, context_key: Option<ElementKey>, parent_type: Option<ElementType>, element: &ElementData) -> Result<(), FoliaError> {
+        let mut ids: HashSet<&str> = HashSet::new();
+        self.check_added_ids(element, &mut ids)?;
+        let mut in_span = false;
+        let mut ancestor_key = context_key;
+        while let Some(ancestor) = ancestor_key.and_then(|key| self.get_elementdata(key)) {
+            in_span = in_span || ElementGroup::Span.contains(ancestor.elementtype);
+            ancestor_key = ancestor.parent_key();
+        }
+        self.check_added_references(parent_type, element, in_span, &ids)
+    }
+
+    ///IDs of elements that are added may not exist yet, neither in the document nor elsewhere in the
+    ///addition
+    fn check_added_ids<'a>(&self, element: &'a ElementData, ids: &mut HashSet<&'a str>) -> Result<(), FoliaError> {
+        self.check_addable(element)?;
+        if let Some(id) = element.id() {
+            if !ids.insert(id) {
+                return Err(FoliaError::KeyError(format!("Duplicate ID: {}", id)));
+            }
+        }
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_added_ids(child, ids)?;
+            }
+        }
+        Ok(())
+    }
+
+    ///Features need an annotation to be a feature of, and word references need to be part of a span
+    ///annotation and reference something
+    fn check_added_references(&self, parent_type: Option<ElementType>, element: &ElementData, in_span: bool, ids: &HashSet<&str>) -> Result<(), FoliaError> {
+        match element.elementtype {
+            ElementType::Feature if element.encodable() => {
+                if parent_type.and_then(|parent_type| parent_type.annotationtype()).is_none() {
+                    return Err(FoliaError::ValidationError("A feature can only be added to an annotation".to_string()));
                 }
+            },
+            ElementType::WordReference if parent_type.is_some() => {
+                let idref = element.idref().ok_or(FoliaError::ValidationError("Wref element does not reference anything!".to_string()))?;
+                if !in_span {
+                    return Err(FoliaError::ValidationError(format!("Wref span parent not found! (idref={})",idref)));
+                }
+                if !ids.contains(idref) && self.get_element_key_by_id(idref).is_none() {
+                    return Err(FoliaError::KeyError(format!("Wref references an element that does not exist! (idref={})",idref)));
+                }
+            },
+            _ => {}
+        }
+        let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_added_references(Some(element.elementtype), child, in_span, ids)?;
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        Ok(())
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 9ab35dc9523611af9ca9694d650675f6e2f17b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 32/48] fix: do not add a layer for a span annotation that can
 not be added to it

---
 src/document.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 3a65807..e19a543 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -616,7 +616,9 @@ impl Document {
                         if suitable {
                             let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
-                                //no layer found yet, add a new one
+                                //no layer found yet, add a new one (unless the element can't be added to it)
+                                self.check_type_addable(layertype, &element)?;
+                                self.check_addition(Some(*ancestor_key), Some(layertype), &element)?;
                                 let layerdata = match set {
                                     Some(set) => ElementData::new(layertype).with_attrib(Attribute::Set(set.clone())),
                                     None => ElementData::new(layertype)
@@ -638,7 +640,9 @@ impl Document {
                 //invoked from the parent structure element that holds the layer (usually a sentence)
                 let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                 if layer_key.is_none() {
-                    //no layer found yet, add a new one
+                    //no layer found yet, add a new one (unless the element can't be added to it)
+                    self.check_type_addable(layertype, &element)?;
+                    self.check_addition(Some(parent_key), Some(layertype), &element)?;
                     let layerdata = match set {
                         Some(set) => ElementData::new(layertype).with_attrib(Attribute::Set(set.clone())),
                         None => ElementData::new(layertype)
@@ -809,7 +813,12 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
         )?;
-        let props = self.props(parent.elementtype());
+        self.check_type_addable(parent.elementtype(), element)
+    }
+
+    ///Checks if the element may be in an element of the specified type
+    fn check_type_addable(&self, parent_type: ElementType, element: &ElementData) -> Result<(), FoliaError> {
+        let props = self.props(parent_type);
         for accepted_data in props.accepted_data.iter() {
             match accepted_data {
                 AcceptedData::AcceptElementType(et) => if *et == element.elementtype {
@@ -820,7 +829,7 @@ impl Document {
                 }
             }
         }
-        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent.elementtype())))
+        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent_type)))
     }
 
 }
-- 
2.43.0


From 4bcf7b2f051a041182d15886b2c7d1628b36b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 33/48] fix: iterate rather than recurse over ancestors that do
 not match

---
 src/select.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 00a4661..a7aea09 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -662,19 +662,16 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
-            if let Some(parent_key) = element.parent {
-                self.key = parent_key;
-                if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
-                    return Some(SelectElementsItem {
-                        element: self.document.get_element(parent_key).expect("Parent no longer exists")
-                    });
-                } else {
-                    let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
-                    if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
-                    }
+        while let Some(parent_key) = self.document.get_elementdata(self.key).and_then(|element| element.parent) {
+            self.key = parent_key;
+            if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
+                return Some(SelectElementsItem {
+                    element: self.document.get_element(parent_key).expect("Parent no longer exists")
+                });
+            } else {
+                let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
+                if !self.recursion.eval(parent_type) {
+                    break;
                 }
             }
         }
-- 
2.43.0


From 483ae67585a9a8e7b1ef6ff4df1047f00d250ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 34/48] fix: the text of spans with circular references does
 not recurse forever

---
 src/text.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 547466a..8eee05c 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -61,6 +61,11 @@ impl<'a> Element<'a> {
 
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        self.text_following(set, textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
+    }
+
+    ///``following`` holds the word references that are being followed, as those may be circular
+    fn text_following(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, following: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
@@ -82,7 +87,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                if let Ok(textpart) = element.text_by_key(set,textclass,strict, retaintokenisation,None) {
+                                if let Ok(textpart) = element.text_following(set,textclass,strict, retaintokenisation,None, following) {
                                     text += &textpart;
                                 }
                             }
@@ -111,7 +116,7 @@ impl<'a> Element<'a> {
                            ElementGroup::SpanRole.contains(element.elementtype()) ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()), following) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -119,9 +124,13 @@ impl<'a> Element<'a> {
                                }
                            }
                         } else if element.elementtype() == ElementType::WordReference {
-                            //follow the reference
+                            //follow the reference (unless we got here by following it)
+                            if following.contains(element_key) {
+                                continue;
+                            }
+                            following.push(*element_key);
                             if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                               if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()), following) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -129,6 +138,7 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
+                            following.pop();
                         } else if element.elementtype() == ElementType::TextContent && element.class().unwrap_or("current") == textclass_name {
                             textcontent_element = Some(element);
                         }
@@ -136,7 +146,7 @@ impl<'a> Element<'a> {
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_following(set,textclass,false,retaintokenisation, None, following) {
                     text = parttext
                 }
             }
-- 
2.43.0


From 13ef87ca9ab546556049614535a1608ac5f8f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 35/48] fix: do not return the starting element a second time
 when it is referenced

---
 src/select.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index a7aea09..45a2870 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -413,6 +413,10 @@ impl<'a> Iterator for SelectIterator<'a> {
                         self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
                     };
                     if self.selector.matches(self.document, item) {
+                        if self.spanreferences {
+                            let key = *key;
+                            self.already_returned(key); //do not return it again when it is referenced further on
+                        }
                         return Some(SelectItem { data: item, parent_key: parent_key, cursor: 0, depth: 0});
                     }
                 }
-- 
2.43.0


From 05a3b881eb93b32b45e543901d07093e2c29a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 36/48] fix: the class of a feature is always a subclass, also
 if it has no subset

---
 src/element.rs | 2 +-
 src/select.rs  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 5a28f83..59fd69e 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -307,7 +307,7 @@ pub trait ReadElement {
     fn class(&self) -> Option<&str> {
         if let Some(class_key) =  self.class_key() {
             if let Some(declaration) = self.get_declaration() {
-                if self.subset_key().is_some() { //we have a subset (this happens on ElementType::Feature only)
+                if self.elementtype() == ElementType::Feature {
                     //class is a subclass
                     return declaration.get_subclass(class_key);
                 } else {
diff --git a/src/select.rs b/src/select.rs
index 45a2870..e31b963 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -109,9 +109,9 @@ impl Selector {
                 let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
                 if let Cmp::Is(deckey) = selector.set {
                     if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
-                                //we have a subset, so we assume the class is a subclass and encode it as such
+                        match (&selector.subset, &selector.elementtype) {
+                            (Cmp::Is(_), _) | (Cmp::Some, _) | (_, Cmp::Is(ElementType::Feature)) =>  {
+                                //we have a subset or a feature, so we assume the class is a subclass and encode it as such
                                 if let Some(class_key) = declaration.subclass_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
                                 }
-- 
2.43.0


From 5b2583301591fdf19f3226626bc0cddba4199c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 37/48] fix: add subprocessors only if all of them can be added

---
 src/document.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index e19a543..f9f56f0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -447,6 +447,11 @@ impl Document {
     ///Add an element to the provenance chain
     ///Returns the key
     pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+        self.check_processor(&processor, &mut self.processor_path(self.get_processor_key_by_id(&processor.id)))?;
+        self.add_checked_processor(processor)
+    }
+
+    fn add_checked_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -455,7 +460,7 @@ impl Document {
                 self.provenancestore.chain.push(child_key);
             }
             for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
+                self.add_checked_subprocessor(child_key, subprocessor)?;
             }
         }
         child_key
@@ -464,12 +469,53 @@ impl Document {
     ///Add a processor as a subprocessor
     ///Returns the key
     pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+        if !self.get_processor(parent_key).is_some() {
+            return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
+        }
+        let mut path = self.processor_path(Some(parent_key));
+        if path.contains(&processor.id) {
+            return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or one of its subprocessors", processor.id)));
+        }
+        path.push(processor.id.clone());
+        self.check_processor(&processor, &mut path)?;
+        self.add_checked_subprocessor(parent_key, processor)
+    }
+
+    ///The IDs of the processor and everything it is a subprocessor of
+    fn processor_path(&self, processor_key: Option<ProcKey>) -> Vec<String> {
+        let mut path: Vec<String> = Vec::new();
+        let mut processor_key = processor_key;
+        while let Some(processor) = processor_key.and_then(|key| self.get_processor(key)) {
+            path.push(processor.id.clone());
+            processor_key = processor.parent;
+        }
+        path
+    }
+
+    ///Checks if the new subprocessors can be added to the processor, none of them may be its own subprocessor.
+    ///This is called before anything is added so nothing is affected if they can not.
+    fn check_processor(&self, processor: &Processor, path: &mut Vec<String>) -> Result<(), FoliaError> {
+        if !path.contains(&processor.id) {
+            path.push(processor.id.clone());
+        }
+        for subprocessor in processor.pending_processors.borrow().iter() {
+            if path.contains(&subprocessor.id) {
+                return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or one of its subprocessors", subprocessor.id)));
+            }
+            path.push(subprocessor.id.clone());
+            self.check_processor(subprocessor, path)?;
+            path.pop();
+        }
+        Ok(())
+    }
+
+    fn add_checked_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
             for subprocessor in pending_subprocessors {
-                self.add_subprocessor(child_key, subprocessor)?;
+                self.add_checked_subprocessor(child_key, subprocessor)?;
             }
         }
         child_key
-- 
2.43.0


From 096b16ad60fbc5220bbc787f844f3719fc36e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 38/48] fix: allow declaring the default namespace on any
 element

---
 src/attrib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/attrib.rs b/src/attrib.rs
index 29c39b6..318fece 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -374,6 +374,9 @@ impl Attribute {
                 b"typegroup" => { //used for explicit mode, does not need to be parsed
                     Ok(Attribute::Ignore)
                 },
+                b"xmlns" => { //namespace declaration, already handled by the XML parser
+                    Ok(Attribute::Ignore)
+                },
                 attrib_key => {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
-- 
2.43.0


From 83c50db60409fc075399aaec27f8f3a94ee0283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 39/48] fix: serialise the set of features that are not in the
 set of their annotation

---
 src/serialiser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index e4afff5..de225f7 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -254,7 +254,14 @@ impl Document {
                         let bare = element.class().is_none() && element.subset().is_none();
                         if let Some(declaration_key) = element.declaration_key() {
                             //check if the declaration is the default, no need to serialise set then
-                            if (bare || !dec_is_default.get(declaration_key as usize).expect("checking default")) && element.elementtype() != ElementType::Feature {
+                            let inferable = if element.elementtype() == ElementType::Feature {
+                                //features are in the set of the element they are in, unless specified otherwise
+                                self.get_elementdata(item.parent_key).map(|parent| parent.declaration_key()).transpose()? == Some(Some(declaration_key))
+                            } else {
+                                //check if the declaration is the default, no need to serialise set then
+                                !bare && *dec_is_default.get(declaration_key as usize).expect("checking default")
+                            };
+                            if !inferable {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From 17db56405978eac3647dc6dc1ebe7c80c95d8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 40/48] fix: selecting from or serialising a detached element
 no longer returns the body instead

---
 src/element.rs      | 6 +++++-
 src/elementstore.rs | 7 -------
 src/select.rs       | 7 +------
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 59fd69e..fbf3dff 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -50,6 +50,9 @@ pub struct ElementData {
     pub(crate) data: Vec<DataType>,
     pub(crate) key: Option<ElementKey>,
     pub(crate) parent: Option<ElementKey>,
+
+    ///This element as a data item, so iterators can refer to it even if it is not in another element
+    pub(crate) item: Option<Box<DataType>>,
 }
 
 #[derive(Clone,Copy)]
@@ -103,6 +106,7 @@ impl Storable<ElementKey> for ElementData {
     ///Sets the key of the current element
     fn assign_key(&mut self, key: ElementKey) {
         self.key = Some(key);
+        self.item = Some(Box::new(DataType::Element(key)));
     }
 
 }
@@ -755,7 +759,7 @@ impl ElementData {
 
     ///Simple constructor for an empty element (optionally with attributes)
     pub fn new(elementtype: ElementType) -> ElementData {
-        Self { elementtype: elementtype, attribs: Vec::new(), data: Vec::new(), key: None, parent: None }
+        Self { elementtype: elementtype, attribs: Vec::new(), data: Vec::new(), key: None, parent: None, item: None }
     }
 
 
diff --git a/src/elementstore.rs b/src/elementstore.rs
index 61f7563..647e76c 100644
--- a/src/elementstore.rs
+++ b/src/elementstore.rs
@@ -14,12 +14,6 @@ pub struct ElementStore {
     pub(crate) items: Vec<Option<Box<ElementData>>>, //heap-allocated
     pub(crate) index: HashMap<String,ElementKey>,
 
-    ///An extra field to hold the document root as DataType. It's practically
-    ///always DataType::Element(0) and exists primarily
-    ///so a borrow can be taken in a similar way as one can can borrow from the data vector
-    ///inside elements. Used by the select iterator.
-    pub(crate) root: DataType,
-
     ///An ``ElementStore`` holds a copy of the FoLiA specification. Duplicating this for each
     ///element store causes some duplication when holding multiple documents (or stores) in memory, but the specification itself contains mostly
     ///references to static strings and arrays contained within the library, and therefore only loaded once.
@@ -31,7 +25,6 @@ impl Default for ElementStore {
         ElementStore {
             items: vec![],
             index: HashMap::new(),
-            root: DataType::Element(0),
             specification: Specification::default()
         }
     }
diff --git a/src/select.rs b/src/select.rs
index e31b963..55f295b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -406,12 +406,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                         //root element, just return the self key as parent key
                         *key
                     };
-                    let item: &'a DataType  = if parent_key == *key {
-                        &self.document.elementstore.root
-                    } else {
-                        let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(*key)).expect("unwrapping child key");
-                        self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
-                    };
+                    let item: &'a DataType = element.item.as_ref().expect("unwrapping element item");
                     if self.selector.matches(self.document, item) {
                         if self.spanreferences {
                             let key = *key;
-- 
2.43.0


From 674878836ae83ae4c64f5355d97491047af20a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:52 +0000
Subject: [PATCH 41/48] fix: CDATA sections are read as the text they contain,
 not in escaped form

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a993593..43092cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,7 @@ impl Document {
                     }
                 },
                 (None, Event::CData(s)) => {
-                    let text_s = reader.decode(&s)?;
+                    let text_s = s.unescape_and_decode(reader)?;
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
                     }
@@ -398,7 +398,7 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
+                        let text = s.unescape_and_decode(reader)?;
                         if text.trim() != "" || (!text.is_empty() && self.in_textcontainer(&stack)) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-- 
2.43.0


From c016b2c3f57575773ef52536e37f26aabea9fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 42/48] fix: a processor listed more than once as annotator of
 a declaration is registered once

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43092cc..9c7196b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,7 +249,9 @@ impl Document {
                             for (dec_key, processor_id) in annotators.iter() {
                                 if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
                                     if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
-                                        declaration.processors.push(processor_key);
+                                        if !declaration.processors.contains(&processor_key) {
+                                            declaration.processors.push(processor_key);
+                                        }
                                     }
                                 }
                             }
-- 
2.43.0


From 3dca4168e0bd1ae7728c9379c7b8ac4bab1768c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 43/48] fix: an existing processor added as subprocessor is
 attached to its new parent

---
 src/document.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f9f56f0..72ad8cd 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -451,7 +451,8 @@ impl Document {
         self.add_checked_processor(processor)
     }
 
-    fn add_checked_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    fn add_checked_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        let existing_subprocessors: Vec<ProcKey> = std::mem::take(&mut processor.processors);
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -459,6 +460,9 @@ impl Document {
             if !placed { //adding a processor that is already there leaves it where it is
                 self.provenancestore.chain.push(child_key);
             }
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_checked_subprocessor(child_key, subprocessor)?;
             }
@@ -498,6 +502,12 @@ impl Document {
         if !path.contains(&processor.id) {
             path.push(processor.id.clone());
         }
+        for subprocessor_key in processor.processors.iter() {
+            let subprocessor = self.get_processor(*subprocessor_key).ok_or_else(|| FoliaError::InternalError(format!("Child does not exist: {}", subprocessor_key)))?;
+            if path.contains(&subprocessor.id) {
+                return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or one of its subprocessors", subprocessor.id)));
+            }
+        }
         for subprocessor in processor.pending_processors.borrow().iter() {
             if path.contains(&subprocessor.id) {
                 return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or one of its subprocessors", subprocessor.id)));
@@ -509,11 +519,15 @@ impl Document {
         Ok(())
     }
 
-    fn add_checked_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    fn add_checked_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        let existing_subprocessors: Vec<ProcKey> = std::mem::take(&mut processor.processors);
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_checked_subprocessor(child_key, subprocessor)?;
             }
-- 
2.43.0


From 4e2376cdc7af693bb44933c0e634e258c00c9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 44/48] fix: a selector for text or comments is matchable
 regardless of its constraints on elements

---
 src/select.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index 55f295b..8e99b39 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -212,6 +212,9 @@ impl Selector {
         (self.set != Cmp::Unmatchable &&
          self.class != Cmp::Unmatchable &&
          self.processor != Cmp::Unmatchable) ||
+        //constraints apply to elements only, text and comments can still be matched
+        self.datatypes.contains(&DataTypeSelector::Text) ||
+        self.datatypes.contains(&DataTypeSelector::Comments) ||
         self.next.as_ref().map(|next| next.matchable()).unwrap_or(false)
     }
 
-- 
2.43.0


From 9dbac58d9bbb651a1b4981d4514b33a2ac295fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 45/48] fix: a class or subset that can not be encoded is an
 error rather than silently dropped

---
 src/document.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 72ad8cd..061193e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -948,9 +948,7 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Ok(Some(class)) = element.class() {
                 if let Some(declaration) = self.get_mut_declaration(deckey) {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
-                    }
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
 
@@ -977,15 +975,11 @@ impl Store<ElementData,ElementKey> for Document {
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-                            if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                                    class_key = Some(clskey);
-                                }
-                            }
                             if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
+                                subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
+                            }
+                            if let Ok(Some(class)) = element.class() {
+                                class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
                             }
                         }
 
-- 
2.43.0


From 5ffb25532698df464e164f92810fe54f140bdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:17 +0000
Subject: [PATCH 46/48] fix: attributes in the metadata that can not be read
 are an error rather than silently dropped

---
 src/parser.rs | 190 ++++++++++++++++++++++++--------------------------
 1 file changed, 92 insertions(+), 98 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9c7196b..8dafde5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -99,17 +99,16 @@ impl Document {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"src" => {
+                                        doc.metadata.src = Some(value);
+                                    },
+                                    b"type" => {
+                                        doc.metadata.metadatatype = Some(value);
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -125,20 +124,19 @@ impl Document {
                             let mut metadata = Metadata::default();
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            metadata.metadatatype = Some(value.clone());
-                                        },
-                                        b"src" => {
-                                            metadata.src = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"xml:id" => {
+                                        submetadata = Some(value.clone());
+                                    },
+                                    b"type" => {
+                                        metadata.metadatatype = Some(value.clone());
+                                    },
+                                    b"src" => {
+                                        metadata.src = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -151,14 +149,13 @@ impl Document {
                             meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"id" | b"xml:id" => {
+                                        meta_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -179,14 +176,13 @@ impl Document {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"processor" => {
+                                        processor_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -474,44 +470,43 @@ impl Processor {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
-            if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader)?;
-                match  attrib.key {
-                    b"xml:id" => { processor.id = value; },
-                    b"name" => { processor.name = value; },
-                    b"version" => { processor.version = value; },
-                    b"folia_version" => { processor.folia_version = value; },
-                    b"document_version" => { processor.document_version = value; },
-                    b"command" => { processor.command = value; },
-                    b"host" => { processor.host = value; },
-                    b"user" => { processor.user = value; },
-                    b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.begindatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.enddatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"src" => { processor.src = value; },
-                    b"format" => { processor.format = value; },
-                    b"resourcelink" => { processor.resourcelink = value; },
-                    b"type" => { match value.as_str() {
-                        "manual" => processor.processortype = ProcessorType::Manual,
-                        "auto" => processor.processortype = ProcessorType::Auto,
-                        "generator" => processor.processortype = ProcessorType::Generator,
-                        "datasource" => processor.processortype = ProcessorType::DataSource,
-                        _ => {
-                            return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
-                        }
-                    }},
-                    tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match  attrib.key {
+                b"xml:id" => { processor.id = value; },
+                b"name" => { processor.name = value; },
+                b"version" => { processor.version = value; },
+                b"folia_version" => { processor.folia_version = value; },
+                b"document_version" => { processor.document_version = value; },
+                b"command" => { processor.command = value; },
+                b"host" => { processor.host = value; },
+                b"user" => { processor.user = value; },
+                b"begindatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.begindatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
+                    };
+                },
+                b"enddatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.enddatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
+                    };
+                },
+                b"src" => { processor.src = value; },
+                b"format" => { processor.format = value; },
+                b"resourcelink" => { processor.resourcelink = value; },
+                b"type" => { match value.as_str() {
+                    "manual" => processor.processortype = ProcessorType::Manual,
+                    "auto" => processor.processortype = ProcessorType::Auto,
+                    "generator" => processor.processortype = ProcessorType::Generator,
+                    "datasource" => processor.processortype = ProcessorType::DataSource,
+                    _ => {
+                        return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                     }
+                }},
+                tag => {
+                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                 }
             }
         }
@@ -578,26 +573,25 @@ impl Declaration {
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"set" => {
-                        set = Some(value.clone());
-                    },
-                    b"alias" => {
-                        alias = Some(value.clone());
-                    },
-                    b"format" => {
-                        format = Some(value.clone());
-                    },
-                    b"annotator" => {
-                        //TODO: handle old-style default
-                    },
-                    b"annotatortype" => {
-                        //TODO: handle old-style default
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
-                    }
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"set" => {
+                    set = Some(value.clone());
+                },
+                b"alias" => {
+                    alias = Some(value.clone());
+                },
+                b"format" => {
+                    format = Some(value.clone());
+                },
+                b"annotator" => {
+                    //TODO: handle old-style default
+                },
+                b"annotatortype" => {
+                    //TODO: handle old-style default
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
-- 
2.43.0


From 4447a59ca2dd84732732ec7291fc6366de65c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:59 +0000
Subject: [PATCH 47/48] fix: an element added with a parent key preset was left
 with a parent that does not list it

---
 src/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document.rs b/src/document.rs
index 061193e..a68c19b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -220,6 +220,7 @@ impl Document {
     fn add_subtree_to(&mut self, parent_key: Option<ElementKey>, mut element: ElementData, references: &mut Vec<ElementKey>) -> Result<ElementKey, FoliaError> {
         let elementtype = element.elementtype;
         let data = std::mem::replace(&mut element.data, Vec::new());
+        element.set_parent_key(None); //set when it is attached
         let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
         if let Some(parent_key) = parent_key {
             self.attach_element(parent_key, key)?;
-- 
2.43.0


From c8450db55ceb50d30d2ec8a1cec542de527bb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:00 +0000
Subject: [PATCH 48/48] fix: an element given by key when adding a tree was
 listed under two parents

---
 src/document.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index a68c19b..19bf985 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -228,6 +228,8 @@ impl Document {
         for item in data {
             if let DataType::AddElement(child) = item {
                 self.add_subtree_to(Some(key), child, references)?;
+            } else if let DataType::Element(child_key) = item {
+                self.attach_element(key, child_key)?;
             } else if let Some(element) = self.get_mut_elementdata(key) {
                 element.push(item);
             }
@@ -248,14 +250,31 @@ impl Document {
         let mut ids: HashSet<&str> = HashSet::new();
         self.check_added_ids(element, &mut ids)?;
         let mut in_span = false;
+        let mut path: Vec<ElementKey> = Vec::new();
         let mut ancestor_key = context_key;
-        while let Some(ancestor) = ancestor_key.and_then(|key| self.get_elementdata(key)) {
+        while let Some((key, ancestor)) = ancestor_key.and_then(|key| self.get_elementdata(key).map(|ancestor| (key, ancestor))) {
             in_span = in_span || ElementGroup::Span.contains(ancestor.elementtype);
+            path.push(key);
             ancestor_key = ancestor.parent_key();
         }
+        self.check_added_keys(element, &path)?;
         self.check_added_references(parent_type, element, in_span, &ids)
     }
 
+    ///Existing elements that are to be attached in the addition (``DataType::Element``) must exist, and
+    ///may not be what they are going to be in (``path``)
+    fn check_added_keys(&self, element: &ElementData, path: &Vec<ElementKey>) -> Result<(), FoliaError> {
+        for item in element.data.iter() {
+            match item {
+                DataType::Element(key) if self.get_elementdata(*key).is_none() => return Err(FoliaError::InternalError(format!("Child does not exist: {}", key))),
+                DataType::Element(key) if path.contains(key) => return Err(FoliaError::ValidationError(format!("Element {} can not be attached to itself or one of its descendants", key))),
+                DataType::AddElement(child) => self.check_added_keys(child, path)?,
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
     ///IDs of elements that are added may not exist yet, neither in the document nor elsewhere in the
     ///addition
     fn check_added_ids<'a>(&self, element: &'a ElementData, ids: &mut HashSet<&'a str>) -> Result<(), FoliaError> {
-- 
2.43.0

