//! Random drivers: produce operations for a profile, chosen looking at the live document.
use crate::state::*;
use crate::Runner;
use folia::*;
use serde_json::{json, Value};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn p(&mut self, percent: usize) -> bool { self.n(100) < percent }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T { let i = self.n(v.len()); v[i].clone() }
}

const SETS: [&str; 4] = ["s1", "s2", "http://x.y/z?a=1&b=<2>", "s 3"];
const CLASSES: [&str; 5] = ["a", "b", "c\"<&>'d", "N(x)", "é"];
const SUBSETS: [&str; 4] = ["gender", "number", "x&y", "head"];
const PROCS: [&str; 5] = ["p1", "p2", "p3", "p4", "p&5"];
const TEXTS: [&str; 14] = ["hello", "a", " lead", "trail ", "two  spaces", "<tag>", "a & b", "\"q\" 'r'", "é漢𝄞", "x\ny", " ", "&amp;", "]]>", "tab\tx"];
const CONFS: [&str; 10] = ["0.5", "0.25", "1", "0", "0.5", "0.1", "0.3333333333333333", "0.000001", "0.999999", "0.12345678"];
const TIMES: [&str; 6] = ["2020-02-29T23:59:59", "1999-01-01T00:00:00", "2000-12-31T12:00:00", "1970-01-01T00:00:01", "2018-09-01T10:00:30", "2100-10-10T20:30:00"];
const VALUES: [&str; 18] = ["x", "note", "n <1> & \"2\"", "né", "it's", " lead", "trail ", "00:00:01.5", "http://a.b/?c=d&e", "0", "-", "iv", "&amp;", "漢𝄞", "a  b", "null", "manual", "f.mp3"];
const STRUCT: [&str; 26] = ["Division", "Paragraph", "Sentence", "Word", "Head", "List", "ListItem", "Quote", "Utterance", "Part", "Event", "Table", "Row", "Cell", "TableHead", "Figure", "Caption", "Gap", "Linebreak", "Whitespace", "Hiddenword", "Note", "Reference", "Entry", "Term", "Label"];
const INLINE: [&str; 16] = ["PosAnnotation", "LemmaAnnotation", "SenseAnnotation", "DomainAnnotation", "LangAnnotation", "SubjectivityAnnotation", "Metric", "TextContent", "PhonContent", "Correction", "ErrorDetection", "Description", "Comment", "Alternative", "Feature", "String"];
const MARKUP: [&str; 8] = ["TextMarkupStyle", "TextMarkupString", "TextMarkupGap", "TextMarkupError", "TextMarkupCorrection", "TextMarkupReference", "TextMarkupHSpace", "TextMarkupWhitespace"];
const SPANS: [(&str, &str); 12] = [("Entity", "EntitiesLayer"), ("Chunk", "ChunkingLayer"), ("SyntacticUnit", "SyntaxLayer"), ("Dependency", "DependenciesLayer"), ("CoreferenceChain", "CoreferenceLayer"),
    ("SemanticRole", "SemanticRolesLayer"), ("Predicate", "SemanticRolesLayer"), ("Sentiment", "SentimentLayer"), ("Statement", "StatementLayer"), ("Observation", "ObservationLayer"), ("TimeSegment", "TimingLayer"), ("Modality", "ModalitiesLayer")];
const CORR: [&str; 4] = ["New", "Current", "Original", "Suggestion"];
const GROUPS: [&str; 8] = ["Layer", "Inline", "Span", "SpanRole", "Structure", "TextMarkup", "Feature", "HigherOrder"];

fn accepted(doc: &Document, p: &str, c: &str) -> bool {
    let ct = crate::exec::et(c);
    doc.props(crate::exec::et(p)).accepted_data.iter().any(|a| match a { AcceptedData::AcceptElementType(t) => *t == ct, AcceptedData::AcceptElementGroup(g) => g.contains(ct) })
}
fn is_container(doc: &Document, t: &str) -> bool { let p = doc.props(crate::exec::et(t)); p.textcontainer || p.phoncontainer }
fn all_types() -> Vec<String> {
    Specification::default().properties.keys().map(|t| name_of(t)).filter(|t| t == "Feature" || !(t.ends_with("Feature") || t == "Text" || t == "Speech" || t == "ForeignData")).collect::<std::collections::BTreeSet<String>>().into_iter().collect()
}

/// what the drivers know of the document
pub struct View { pub n: usize, pub t: Vec<String>, pub ids: Vec<Option<String>>, pub par: Vec<usize>, pub enc: Vec<(Option<String>, Option<String>, Option<String>)> }
pub fn view(doc: &Document) -> View {
    let c = Canon::new(doc);
    let mut v = View { n: c.order.len(), t: vec![], ids: vec![], par: vec![], enc: vec![] };
    for &k in c.order.iter() {
        let e = doc.get_element(k).unwrap();
        v.t.push(name_of(&e.elementtype()));
        v.ids.push(e.id().map(|s| s.to_string()));
        v.par.push(e.parent_key().map(|p| c.n(p)).unwrap_or(0));
        let set = if e.declaration_key().is_some() { e.set().map(|s| s.to_string()) } else { None };
        v.enc.push((set, if e.class_key().is_some() { e.class().map(|s| s.to_string()) } else { None }, if e.subset_key().is_some() { e.subset().map(|s| s.to_string()) } else { None }));
    }
    v
}
impl View {
    fn of_type(&self, f: &dyn Fn(&str) -> bool) -> Vec<usize> { (0..self.n).filter(|i| f(&self.t[*i])).map(|i| i + 1).collect() }
}

pub struct Gen<'a> { pub r: Rng, pub types: Vec<String>, pub c: u32, pub profile: &'a str, pub bad: usize, pub rich: usize, pub known: Vec<String>, pub voc: [Vec<String>; 4] }

impl<'a> Gen<'a> {
    /// now and then something that almost is the value: what is stored, compared and looked up must be the value itself
    fn near(&mut self, s: String) -> String {
        if !self.r.p(5) { return s; }
        match self.r.n(9) {
            0 => s + "/", 1 => s.to_uppercase(), 2 => format!(" {}", s), 3 => s + " ", 4 => { let k = if self.r.p(8) { 70_000 } else { 300 }; s.chars().cycle().take(k).collect() },
            5 => s + "e\u{301}", 6 => s + "1", 7 => s.chars().take(1).collect(), _ => s + "\u{e9}",
        }
    }
    fn variant(&mut self, s: &str) -> String {
        let s = s.to_string();
        match self.r.n(14) {
            0 => s + "/", 1 => if s.to_uppercase() == s { s.to_lowercase() } else { s.to_uppercase() }, 2 => format!(" {}", s), 3 => s + " ", 4 => s + "1", 5 => s.clone() + &s, 6 => s + "e\u{301}", 7 => s + "\u{e9}",
            8 => s + "#", 9 => format!("x{}", s), 10 => s + ".", 11 => s.replace("-", "_") + "-", 12 => s.chars().take(300).cycle().take(300).collect(), _ => s + "&",
        }
    }
    /// the sets, classes, subsets and processors of a behaviour: often a value and what nearly is that value
    pub fn vocabulary(&mut self) {
        let all: [Vec<String>; 4] = [SETS.iter().map(|s| s.to_string()).collect(), CLASSES.iter().map(|s| s.to_string()).collect(), SUBSETS.iter().map(|s| s.to_string()).collect(), PROCS.iter().map(|s| s.to_string()).collect()];
        for k in 0..4 {
            if !self.r.p(30) { self.voc[k] = all[k].clone(); continue; }
            let base = self.r.of(&all[k]);
            let mut l = vec![base.clone()];
            for _ in 0..1 + self.r.n(2) { let v = self.variant(&base); if !l.contains(&v) { l.push(v); } }
            if self.r.p(30) { let v = self.r.of(&all[k]); if !l.contains(&v) { l.push(v); } }
            if self.r.p(50) { l.reverse(); }
            self.voc[k] = l;
        }
    }
    fn first2(&self, k: usize) -> Vec<String> { self.voc[k].iter().take(2).cloned().collect() }
    fn proc(&mut self) -> String { let s = self.r.of(&self.voc[3].clone()); self.near(s) }
    fn key(&mut self) -> String { let k = self.r.of(&["title", "title", "k&1", "a b", "type"]).to_string(); if self.r.p(20) { self.variant(&k) } else { k } }
    fn field(&mut self) -> String { match self.r.n(10) { 0 => "".into(), 1 => "é\nz".into(), 2 => " spaced ".into(), 3 => "<x> & \"y\"".into(), 4 => self.text(), _ => self.value() } }
    fn opt(&mut self, some: usize, usual: &str) -> Value { if !self.r.p(some) { json!([]) } else if self.r.p(40) { json!([usual]) } else { json!([self.value()]) } }
    /// any string
    fn value(&mut self) -> String { let s = self.r.of(&VALUES).to_string(); if self.r.p(25) { self.variant(&s) } else { s } }
    fn text(&mut self) -> String { let mut s = self.r.of(&TEXTS).to_string(); if self.r.p(15) { s += self.r.of(&TEXTS); } if s.trim().is_empty() { s } else { self.near(s) } }
    fn word(&mut self) -> String { if self.r.p(70) { self.r.of(&["one", "two", "three", "vier", "x"]).to_string() } else { self.text() } }
    fn fresh(&mut self, p: &str) -> String {
        self.c += 1;
        let id = format!("{}.{}", p, self.c);
        if self.r.p(94) { return id; }
        // near an identifier there is, or out of the ordinary
        let last = format!("{}.{}", p, self.c - 1);
        match self.r.n(9) { 7 => format!("#{}", last), 8 => format!("#{}", id), 0 => id.to_uppercase(), 1 => last + "/", 2 => last + ".1", 3 => id.clone() + &"x".repeat(if self.r.p(8) { 70_000 } else { 300 }), 4 => format!("{}\u{e9}", last), 5 => format!("{}#a?b=c&d", id), _ => format!("{} ", last) }
    }
    fn set(&mut self) -> String { let s = if self.r.p(75) { self.r.of(&self.first2(0)) } else { self.r.of(&self.voc[0].clone()) }; self.near(s) }
    fn class(&mut self) -> String { let s = if self.r.p(60) { self.r.of(&self.first2(1)) } else { self.r.of(&self.voc[1].clone()) }; self.near(s) }
    fn subset(&mut self) -> String { let s = self.r.of(&self.voc[2].clone()); self.near(s) }
    fn annotated(&self, doc: &Document, t: &str) -> bool { let _ = doc; crate::exec::et(t).annotationtype().is_some() }

    fn attrs(&mut self, doc: &Document, t: &str, v: &View) -> Vec<(String, String)> {
        let mut a: Vec<(String, String)> = vec![];
        let idp = if ["Word", "Sentence", "Paragraph"].contains(&t) { 85 } else { 12 };
        if self.r.p(idp) {
            let existing: Vec<String> = v.ids.iter().filter_map(|x| x.clone()).collect();
            if self.r.p(self.bad) && !existing.is_empty() { a.push(("ID".into(), self.r.of(&existing))); }
            else { let p = if t == "Word" { "w" } else { "e" }; let f = self.fresh(p); a.push(("ID".into(), f)); }
        }
        let ann = self.annotated(doc, t);
        if t == "Feature" {
            if self.r.p(90) { a.push(("SUBSET".into(), self.subset())); }
            if self.r.p(90) { a.push(("CLASS".into(), self.class())); }
            if self.r.p(8) { a.push(("SET".into(), self.set())); }
            if self.r.p(8) { a.push(("PROCESSOR".into(), self.proc())); }
        } else if ann {
            let structural = STRUCT.contains(&t);
            let tc = t == "TextContent" || t == "PhonContent";
            if self.r.p(if structural { 8 } else if tc { 6 } else { 45 }) { a.push(("SET".into(), self.set())); }
            if self.r.p(if structural { 15 } else if tc { 25 } else { 75 }) { let c = if tc && self.r.p(50) { "current".to_string() } else { self.class() }; a.push(("CLASS".into(), c)); }
            if self.r.p(if structural { 5 } else { 15 }) { a.push(("PROCESSOR".into(), self.proc())); }
        } else if self.r.p(2) { a.push(("PROCESSOR".into(), self.proc())); }
        if self.r.p(self.rich) {
            for _ in 0..1 + self.r.n(3) {
                let (k, val): (&str, String) = match self.r.n(24) {
                    0 => ("N", self.value()), 1 => ("CONFIDENCE", self.r.of(&CONFS).to_string()), 2 => ("DATETIME", self.r.of(&TIMES).to_string()),
                    3 => ("BEGINTIME", self.value()), 4 => ("ENDTIME", self.value()), 5 => ("SRC", self.value()), 6 => ("SPEAKER", self.value()), 7 => ("TEXTCLASS", self.class()),
                    8 => ("METADATA", self.value()), 9 => ("SPACE", self.r.of(&["yes", "no"]).to_string()), 10 => ("TEXT", self.value()), 11 => ("TYPE", self.value()), 12 => ("AUTH", self.value()),
                    13 => ("OFFSET", self.r.of(&["0", "7", "9999", "255", "256", "65535"]).to_string()), 14 => ("REF", self.value()), 15 => ("ORIGINAL", self.value()), 16 => ("LINENR", self.r.of(&["12", "0", "65535", "300"]).to_string()), 17 => ("PAGENR", self.value()),
                    18 => ("NEWPAGE", self.r.of(&["yes", "no"]).to_string()), 19 => ("FORMAT", self.value()), 20 => ("TAG", self.value()), 21 => ("HREF", self.value()), 22 => ("ANNOTATOR", if self.r.p(70) { self.r.of(&["john", "p1 name"]).to_string() } else { self.value() }),
                    _ => ("ANNOTATORTYPE", self.r.of(&["manual", "auto", "generator", "datasource"]).to_string()),
                };
                if !a.iter().any(|x| x.0 == k) { a.push((k.into(), val)); }
            }
        } else if t == "Word" && self.r.p(30) { a.push(("SPACE".into(), self.r.of(&["yes", "no"]).to_string())); }
        // the order in which attributes are given is irrelevant
        if a.len() > 1 && self.r.p(40) { let i = self.r.n(a.len()); let x = a.remove(i); a.push(x); }
        a
    }
    fn elem(&self, t: &str, at: Vec<(String, String)>, ch: Vec<Value>) -> Value { json!({"t": t, "at": at, "ch": ch}) }
    fn x(&self, e: Value) -> Value { json!({"k": "X", "e": e}) }

    fn pick_type(&mut self, doc: &Document, par: &str) -> String {
        let pool: Vec<String> = match self.r.n(12) {
            0..=3 => INLINE.iter().map(|s| s.to_string()).collect(),
            4..=6 => STRUCT.iter().map(|s| s.to_string()).collect(),
            7 => MARKUP.iter().map(|s| s.to_string()).collect(),
            8 => SPANS.iter().map(|s| s.1.to_string()).collect(),
            9 => SPANS.iter().map(|s| s.0.to_string()).collect(),
            10 => CORR.iter().map(|s| s.to_string()).collect(),
            _ => self.types.clone(),
        };
        let good: Vec<String> = pool.iter().filter(|t| accepted(doc, par, t)).cloned().collect();
        if !good.is_empty() && !self.r.p(6) { return self.r.of(&good); }
        let good: Vec<String> = self.types.iter().filter(|t| accepted(doc, par, t)).cloned().collect();
        if !good.is_empty() && !self.r.p(8) { return self.r.of(&good); }
        self.r.of(&self.types.clone())
    }
    /// an element with things in it
    fn tree(&mut self, doc: &Document, v: &View, t: &str, depth: usize) -> Value {
        let mut at = self.attrs(doc, t, v);
        let mut ch: Vec<Value> = vec![];
        if t == "WordReference" || t == "LinkReference" {
            let mut ids: Vec<String> = v.ids.iter().filter_map(|x| x.clone()).collect();
            if self.r.p(self.bad) { ids.push("nope".into()); }
            if !ids.is_empty() && !self.r.p(self.bad / 2) { let i = self.r.of(&ids); at.push(("IDREF".into(), i)); }
        }
        if is_container(doc, t) {
            for _ in 0..self.r.n(3) + (depth > 0) as usize {
                if self.r.p(70) || depth == 0 { let s = if self.r.p(60) { self.word() } else { self.text() }; ch.push(json!({"k": "T", "s": s})); }
                else { let mt = self.pick_type(doc, t); let e = self.tree(doc, v, &mt, depth - 1); ch.push(self.x(e)); }
            }
        } else {
            if depth > 0 {
                for _ in 0..self.r.n(4) { let ct = self.pick_type(doc, t); let e = self.tree(doc, v, &ct, depth - 1); ch.push(self.x(e)); }
                if t == "Word" && self.r.p(60) { let e = self.tc(); ch.push(self.x(e)); }
            }
            if ["Description", "Comment", "Content"].contains(&t) || self.r.p(3) { let s = self.text(); ch.push(json!({"k": "T", "s": s})); }
        }
        if self.r.p(4) { ch.push(json!({"k": "C", "s": self.r.of(&["comment", "a <b> & c", " spaced "])})); }
        if self.r.p(2) { let n = self.any(v); ch.push(json!({"k": "A", "n": n})); } // an element there is
        if ch.len() > 1 && self.r.p(20) { let i = self.r.n(ch.len()); let x = ch.remove(i); ch.push(x); }
        self.elem(t, at, ch)
    }
    fn tc(&mut self) -> Value {
        let mut at: Vec<(String, String)> = vec![];
        if self.r.p(25) { let c = self.r.of(&["current", "original", "ocr"]).to_string(); at.push(("CLASS".into(), c)); }
        let s = self.word();
        let mut ch = vec![json!({"k": "T", "s": s})];
        if self.r.p(15) { let s2 = self.word(); let m = self.r.of(&["TextMarkupStyle", "TextMarkupString", "TextMarkupError", "TextMarkupGap"]); let a2 = if self.r.p(50) { vec![("CLASS".to_string(), self.class())] } else { vec![] }; let inner = self.elem(m, a2, vec![json!({"k": "T", "s": s2})]); ch.push(self.x(inner)); if self.r.p(50) { let s3 = self.text(); ch.push(json!({"k": "T", "s": s3})); } }
        self.elem("TextContent", at, ch)
    }
    /// the parts of a word
    fn morphology(&mut self) -> Value {
        let (l, m) = self.r.of(&[("MorphologyLayer", "Morpheme"), ("MorphologyLayer", "Morpheme"), ("PhonologyLayer", "Phoneme")]);
        let mut ch: Vec<Value> = vec![];
        for _ in 0..1 + self.r.n(3) {
            let mut at = vec![("ID".to_string(), self.fresh("m"))];
            if self.r.p(30) { at.push(("CLASS".into(), self.class())); }
            let k = if self.r.p(60) { let t = self.tc(); vec![self.x(t)] } else { vec![] };
            let e = self.elem(m, at, k); ch.push(self.x(e));
        }
        let at = if self.r.p(20) { vec![("SET".to_string(), self.set())] } else { vec![] };
        let e = self.elem(l, at, ch);
        self.x(e)
    }
    /// a span annotation over the given words
    fn span(&mut self, doc: &Document, v: &View, t: &str, words: &[String], depth: usize) -> Value {
        let mut at: Vec<(String, String)> = self.attrs(doc, t, v).into_iter().filter(|a| a.0 != "IDREF").collect();
        if !at.iter().any(|a| a.0 == "SET") && self.r.p(45) { at.push(("SET".into(), self.set())); }
        let mut ch: Vec<Value> = vec![];
        for (i, w) in words.iter().enumerate() {
            if i > 0 && self.r.p(10) { continue; }
            let w = if i > 0 && self.r.p(8) { &words[i - 1] } else { w };
            let idref = if self.r.p(self.bad) { "nope".to_string() } else { w.clone() };
            let a: Vec<(String, String)> = if self.r.p(self.bad / 3) { vec![] } else { vec![("IDREF".to_string(), idref)] };
            let e = self.elem("WordReference", a, vec![]);
            ch.push(self.x(e));
        }
        if depth > 0 && self.r.p(35) {
            let roles: Vec<&str> = ["Headspan", "DependencyDependent", "SyntacticUnit", "CoreferenceLink", "Cue", "Source", "Target", "Feature", "Description", "Scope", "StatementRelation", "Relation"].iter().cloned().filter(|r| accepted(doc, t, r)).collect();
            if !roles.is_empty() {
                let role = self.r.of(&roles);
                let e = if role == "Feature" || role == "Description" || role == "Relation" { self.tree(doc, v, role, 1) } else { let k = 1 + self.r.n(words.len().max(1)); let sub: Vec<String> = words.iter().take(k).cloned().collect(); self.span(doc, v, role, &sub, depth - 1) };
                ch.push(self.x(e));
                if self.r.p(30) { ch.rotate_right(1); }
            }
        }
        self.elem(t, at, ch)
    }
    fn words(&mut self, doc: &Document, v: &View) -> Vec<String> {
        let w: Vec<String> = (0..v.n).filter(|i| v.ids[*i].is_some() && (self.c % 11 == 5 || doc.props(crate::exec::et(&v.t[*i])).wrefable)).map(|i| v.ids[i].clone().unwrap()).collect();
        if w.is_empty() { return vec![]; }
        let k = 1 + self.r.n(3);
        let st = self.r.n(w.len());
        if self.r.p(60) { w.iter().cycle().skip(st).take(k.min(w.len())).cloned().collect() } else { (0..k).map(|_| self.r.of(&w)).collect() }
    }
    fn any(&mut self, v: &View) -> usize { if self.r.p(3) { v.n + 1 + self.r.n(3) } else if v.n > 8 && self.r.p(50) { v.n - self.r.n(8) } else { 1 + self.r.n(v.n) } }
    fn ok(&mut self, v: &View) -> usize { 1 + self.r.n(v.n) }
    /// an element to add something to
    fn target(&mut self, v: &View) -> usize {
        if self.r.p(10) { return self.any(v); }
        let c = v.of_type(&|t| STRUCT.contains(&t));
        if c.is_empty() || self.r.p(25) { self.any(v) } else { self.r.of(&c) }
    }
    fn procs(&mut self, depth: usize) -> Value {
        let mut a: Vec<(String, String)> = vec![];
        if self.r.p(80) { let x = if self.r.p(70) { self.r.of(&["p1 name", "john", "Frog & <co>"]).to_string() } else { self.value() }; a.push(("name".into(), x)); }
        if self.r.p(50) { a.push(("type".into(), self.r.of(&["Auto", "Manual", "Generator", "DataSource"]).to_string())); }
        for f in ["version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink"].iter() { if self.r.p(12) { let x = self.value(); a.push((f.to_string(), x)); } }
        for f in ["begindatetime", "enddatetime"].iter() { if self.r.p(12) { a.push((f.to_string(), self.r.of(&TIMES).to_string())); } }
        let mut subs: Vec<Value> = vec![];
        if depth > 0 { for _ in 0..self.r.n(3) { let s = self.procs(depth - 1); subs.push(s); } }
        if self.r.p(12) { let ex: Vec<String> = self.known.clone(); if !ex.is_empty() { let k = 1 + self.r.n(2); for _ in 0..k { let i = self.r.of(&ex); subs.insert(0, json!({"id": i, "a": [], "subs": [], "ex": true})); } } }
        json!({"id": self.proc(), "a": a, "subs": subs})
    }
    fn cmp(&mut self, vals: Vec<String>, is: usize, some: usize, none: usize) -> Value {
        let k = self.r.n(100);
        if k < is && !vals.is_empty() { json!(["Is", self.r.of(&vals)]) } else if k < is + some { json!(["Some"]) } else if k < is + some + none { json!(["None"]) } else if k == 99 { json!(["Un"]) } else { json!(["Any"]) }
    }
    fn query(&mut self, doc: &Document, v: &View) -> Value {
        let any = json!(["Any"]);
        let _ = doc;
        let mut q = json!({"el": any, "gr": any, "ctx": any, "set": any, "cls": any, "proc": any, "sub": any, "ann": any, "annt": any, "conf": any, "dt": ["E"], "api": false});
        if self.r.p(6) { // made without a query
            q["api"] = json!(true);
            q["dt"] = self.r.of(&[json!([]), json!(["E"]), json!(["T"]), json!(["C"]), json!(["T", "C"]), json!(["E", "T"]), json!(["T", "E"])]);
            if self.r.p(70) { let t = v.t[self.r.n(v.n)].clone(); q["el"] = self.cmp(vec![t], 75, 10, 8); }
            if self.r.p(40) { let g = self.r.of(&GROUPS).to_string(); q["gr"] = self.cmp(vec![g], 75, 8, 8); }
            return q;
        }
        if self.r.p(5) { q["dt"] = self.r.of(&[json!(["E", "T"]), json!(["E", "C"])]); }
        let k = self.ok(v) - 1;
        let (set, cls, sub) = v.enc[k].clone();
        let known = self.r.p(75);
        if v.t[k] == "Feature" && self.r.p(70) {
            let p = v.par[k];
            q["el"] = json!(["Is", "Feature"]);
            if p != 0 && !self.r.p(10) { q["ctx"] = json!(["Is", v.t[p - 1]]); }
            if known { q["set"] = match &set { Some(s) => json!(["Is", s]), None => json!(["None"]) }; if let (Some(s), true) = (&sub, self.r.p(80)) { q["sub"] = json!(["Is", s]); } if let (Some(s), true) = (&cls, self.r.p(50)) { q["cls"] = json!(["Is", s]); } }
            else { let s = self.set(); q["set"] = self.cmp(vec![s], 60, 10, 10); let s = self.subset(); q["sub"] = self.cmp(vec![s], 50, 20, 10); let s = self.class(); q["cls"] = self.cmp(vec![s], 40, 10, 10); }
        } else {
            if self.r.p(75) { let t = v.t[k].clone(); q["el"] = json!(["Is", if self.r.p(88) { t } else { self.r.of(&self.types.clone()) }]); }
            if self.r.p(12) { let g = self.r.of(&GROUPS).to_string(); q["gr"] = self.cmp(vec![g], 75, 8, 8); }
            if known { if self.r.p(60) { q["set"] = match &set { Some(s) => json!(["Is", s]), None => self.r.of(&[json!(["None"]), json!(["Some"]), json!(["Any"])]) }; } if let (Some(s), true) = (&cls, self.r.p(60)) { q["cls"] = json!(["Is", s]); } }
            else { let s = self.set(); q["set"] = self.cmp(vec![s], 30, 15, 15); let s = self.class(); q["cls"] = self.cmp(vec![s], 20, 15, 15); }
            if self.r.p(4) { let s = self.subset(); q["sub"] = self.cmp(vec![s], 40, 30, 30); }
        }
        if self.r.p(18) { q["proc"] = self.cmp(self.voc[3].clone(), 70, 15, 12); }
        if self.r.p(12) { q["ann"] = self.cmp(vec!["john".into(), "p1 name".into(), "nobody".into()], 70, 15, 12); }
        if self.r.p(12) { q["annt"] = self.cmp(vec!["Manual".into(), "Auto".into(), "Generator".into()], 70, 15, 12); }
        if self.r.p(12) { q["conf"] = self.cmp(vec!["0.5".into(), "0.25".into(), "1".into()], 60, 20, 18); }
        q
    }
    fn rec(&mut self, v: &View) -> Value {
        let mut acc: Vec<Value> = vec![];
        for _ in 0..1 + self.r.n(3) { if self.r.p(60) { let t = v.t[self.r.n(v.n)].clone(); acc.push(json!(["E", t])); } else { acc.push(json!(["G", self.r.of(&GROUPS)])); } }
        match self.r.n(10) { 0..=4 => json!(["Always"]), 5 | 6 => json!(["No"]), 7 => json!(["Limited", acc]), _ => json!(["Except", acc]) }
    }
    fn anntype(&mut self, v: &View) -> String {
        let c: Vec<AnnotationType> = v.t.iter().filter_map(|t| crate::exec::et(t).annotationtype()).collect();
        if !c.is_empty() && self.r.p(70) { name_of_ann(self.r.of(&c)) } else { self.r.of(&["POS", "LEMMA", "ENTITY", "SYNTAX", "TOKEN", "TEXT", "CORRECTION"]).to_string() }
    }
    fn maybe_set(&mut self, some: usize) -> Value { if self.r.p(some) { json!([self.set()]) } else { json!([]) } }

    pub fn op(&mut self, doc: &Document, kind: &str) -> Value {
        let v = view(doc);
        self.known = self.voc[3].iter().filter(|p| doc.get_processor_key_by_id(p).is_some()).cloned().collect();
        match kind {
            "add" => { let t = if self.r.p(60) { self.r.of(&STRUCT).to_string() } else { self.r.of(&self.types.clone()) }; let d = self.r.n(3); json!({"n": "add", "e": self.tree(doc, &v, &t, d)}) }
            "addto" => {
                let p = self.target(&v);
                let pt = if p <= v.n { v.t[p - 1].clone() } else { "Word".to_string() };
                let t = self.pick_type(doc, &pt); let d = self.r.n(4);
                json!({"n": "addto", "par": p, "e": self.tree(doc, &v, &t, d)})
            }
            "layer+" => { // a layer with spans in it, below a structure element
                let ws = self.words(doc, &v);
                let (s, l) = self.r.of(&SPANS);
                let mut spans: Vec<Value> = vec![];
                for _ in 0..1 + self.r.n(2) { let e = self.span(doc, &v, s, &ws, 2); spans.push(self.x(e)); }
                let at: Vec<(String, String)> = self.attrs(doc, l, &v).into_iter().filter(|a| a.0 != "SET" || self.r.p(40)).collect();
                let e = self.elem(l, at, spans);
                json!({"n": "addto", "par": self.target(&v), "e": e})
            }
            "feature" => { let c: Vec<usize> = (1..=v.n).filter(|i| self.annotated(doc, &v.t[*i - 1])).collect(); let p = if c.is_empty() || self.r.p(8) { self.any(&v) } else { self.r.of(&c) }; json!({"n": "addto", "par": p, "e": self.tree(doc, &v, "Feature", 1)}) }
            "inline" => { let c = v.of_type(&|t| t == "Word" || t == "Sentence" || t == "Morpheme"); let p = if c.is_empty() { self.any(&v) } else { self.r.of(&c) }; let t = self.r.of(&INLINE); json!({"n": if self.r.p(60) { "annotate" } else { "addto" }, "par": p, "e": self.tree(doc, &v, t, 2)}) }
            "words" => { // a sentence with words
                let k = 1 + self.r.n(4);
                let mut ch: Vec<Value> = vec![];
                for _ in 0..k { let mut w = self.tree(doc, &v, "Word", 0); if !w["at"].to_string().contains("\"ID\"") { let id = self.fresh("w"); w["at"].as_array_mut().unwrap().push(json!(["ID", id])); } if self.r.p(85) { let t = self.tc(); let t = self.x(t); w["ch"].as_array_mut().unwrap().push(t); }
                    if self.r.p(10) { let m = self.morphology(); w["ch"].as_array_mut().unwrap().push(m); }
                    ch.push(self.x(w)); }
                let t = self.r.of(&["Sentence", "Sentence", "Paragraph", "Head", "Quote", "ListItem"]);
                let mut at = self.attrs(doc, t, &v); at.retain(|a| a.0 != "SPACE");
                let e = self.elem(t, at, ch);
                let c = v.of_type(&|x| ["Text", "Speech", "Division", "Paragraph", "List"].contains(&x));
                json!({"n": "addto", "par": if c.is_empty() { 1 } else { self.r.of(&c) }, "e": e})
            }
            "deep" => { // elements in one another, a sentence with words at the bottom
                let mut e = self.op(doc, "words")["e"].clone();
                let k = self.r.of(&[3, 6, 12, 12, 18, 34]); let what = self.r.of(&["Division", "Division", "Division", "Event", "Note", "Quote"]);
                for j in 0..k { let mut at: Vec<(String, String)> = vec![]; if self.r.p(20) { let f = self.fresh("v"); at.push(("ID".into(), f)); } if self.r.p(10) { at.push(("CLASS".into(), self.class())); }
                    let mut ch = vec![self.x(e)];
                    if j < 3 && self.r.p(15) { let o = self.op(doc, "words")["e"].clone(); ch.push(self.x(o)); if self.r.p(50) { ch.reverse(); } }
                    e = self.elem(if accepted(doc, what, what) { what } else { "Division" }, at, ch); }
                json!({"n": "addto", "par": 1, "e": e})
            }
            "annotate" => {
                let p = self.target(&v);
                let pt = if p <= v.n { v.t[p - 1].clone() } else { "Word".to_string() };
                if self.r.p(35) { let ws = self.words(doc, &v); let (s, _) = self.r.of(&SPANS); return json!({"n": "annotate", "par": p, "e": self.span(doc, &v, s, &ws, 2)}); }
                let t = if self.r.p(70) { self.pick_type(doc, &pt) } else { self.r.of(&self.types.clone()) };
                let d = self.r.n(3);
                json!({"n": "annotate", "par": p, "e": self.tree(doc, &v, &t, d)})
            }
            "annlayer" => { // spans in layers and spans, of the kind that goes there or another
                let c = v.of_type(&|t| SPANS.iter().any(|s| s.0 == t || s.1 == t));
                let p = if c.is_empty() { self.any(&v) } else { self.r.of(&c) };
                let pt = if p <= v.n { v.t[p - 1].clone() } else { "".to_string() };
                let ws = self.words(doc, &v);
                let own: Vec<&str> = SPANS.iter().filter(|s| s.1 == pt).map(|s| s.0).collect();
                let s = if !own.is_empty() && self.r.p(40) { own[0] } else { self.r.of(&SPANS).0 };
                json!({"n": "annotate", "par": p, "e": self.span(doc, &v, s, &ws, 1)})
            }
            "annspan" => { let ws = self.words(doc, &v); let (s, _) = self.r.of(&SPANS); let few = if self.r.p(60) { self.r.n(3) } else { self.r.n(SPANS.len()) }; let s = if self.r.p(50) { SPANS[few].0 } else { s }; let s = if self.r.p(self.bad) { self.r.of(&["Word", "PosAnnotation", "Headspan"]) } else { s }; json!({"n": "annspan", "e": self.span(doc, &v, s, &ws, 2)}) }
            "attach" => json!({"n": "attach", "par": self.any(&v), "child": self.any(&v)}),
            "attachback" => { // a detached element is put somewhere
                let c: Vec<usize> = (2..=v.n).filter(|i| v.par[*i - 1] == 0).collect();
                let ch = if c.is_empty() { self.any(&v) } else { self.r.of(&c) };
                json!({"n": "attach", "par": self.target(&v), "child": ch})
            }
            "detach" => json!({"n": "detach", "child": self.any(&v)}),
            "declare" => json!({"n": "declare", "t": self.anntype(&v), "set": self.maybe_set(60), "al": if self.r.p(15) { json!([self.value()]) } else { json!([]) }, "fm": if self.r.p(10) { json!([self.value()]) } else { json!([]) }}),
            "adddec" => json!({"n": "adddec", "t": self.anntype(&v), "set": self.maybe_set(75), "al": if self.r.p(15) { json!([self.value()]) } else { json!([]) }, "fm": json!([])}),
            "addclass" => json!({"n": "addclass", "t": self.anntype(&v), "set": self.maybe_set(60), "cls": self.class()}),
            "decopen" => { // straight to a declaration
                let c: Vec<(String, Option<String>)> = doc.declarations().filter_map(|d| d.as_ref()).map(|d| (name_of_ann(d.annotationtype), d.set.clone())).collect();
                let (t, s) = if c.is_empty() || self.r.p(10) { (self.anntype(&v), Some(self.set())) } else { self.r.of(&c) };
                let n = self.r.of(&["addsubset", "addsubclass", "addowncls"]);
                let q = if n == "addsubset" { self.subset() } else { self.class() };
                json!({"n": n, "t": t, "set": match s { Some(s) => json!([s]), None => json!([]) }, "s": q}) }
            "config" => { // properties given later on
                let decl: Vec<Value> = (0..self.r.n(3)).map(|_| { let t = self.anntype(&v); let s = self.maybe_set(70); json!([t, s]) }).collect();
                let p = if self.r.p(50) { let p = self.procs(1); json!([p]) } else { json!([]) };
                json!({"n": "config", "body": self.r.of(&["Text", "Speech"]), "defdecl": self.r.p(50), "decl": decl, "proc": p}) }
            "built" => { let t = self.r.of(&self.types.clone()); let d = self.r.n(2); let e = self.tree(doc, &v, &t, d); json!({"n": "built", "e": e, "rm": self.r.n(4)}) }
            "textclass" => json!({"n": "addclass", "t": "TEXT", "set": [folia::DEFAULT_TEXT_SET], "cls": self.r.of(&["original", "ocr", "current"])}),
            "addproc" => json!({"n": "addproc", "p": self.procs(2)}),
            "addprov" => { let mut p = self.procs(0); p["subs"] = json!([]); let _ = &p; json!({"n": "addprov", "p": p}) }
            "addsub" => json!({"n": "addsub", "par": self.proc(), "p": self.procs(1)}),
            "attproc" => json!({"n": "attproc", "par": self.proc(), "child": self.proc()}),
            "activate" => { let known: Vec<String> = self.known.clone(); if known.is_empty() { return self.op(doc, "addproc"); } json!({"n": "activate", "p": self.r.of(&known)}) }
            "setproc" => {
                let f = self.r.of(&["name", "name", "type", "type", "version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink", "begindatetime", "enddatetime"]).to_string();
                let x = match f.as_str() { "name" => self.r.of(&["p1 name", "john", "Frog & <co>", ""]).to_string(), "type" => self.r.of(&["Auto", "Manual", "Generator", "DataSource"]).to_string(),
                    "begindatetime" | "enddatetime" => self.r.of(&TIMES).to_string(), _ => self.value() };
                json!({"n": "setproc", "p": self.proc(), "k": f, "v": x})
            }
            "cmp" => { let c = self.cmp(vec!["a".into(), "b".into()], 40, 20, 20); json!({"n": "cmp", "c": c, "have": if self.r.p(30) { json!([]) } else { json!([self.r.of(&["a", "b", "c"])]) }}) }
            "receval" => json!({"n": "receval", "rec": self.rec(&v), "t": v.t[self.r.n(v.n)].clone()}),
            "setmeta" => { let (k, x) = (self.key(), self.field()); json!({"n": "setmeta", "k": k, "v": x}) }
            "metasrc" => { let (a, b) = (self.opt(60, "m.xml"), self.opt(60, "native")); json!({"n": "metasrc", "src": a, "type": b}) }
            "submeta" => {
                let id = self.r.of(&["m1", "m1", "m2", "m&2"]).to_string(); let id = if self.r.p(15) { self.variant(&id) } else { id };
                let (a, b) = (self.opt(60, "native"), self.opt(50, "s.xml"));
                let mut data: Vec<(String, String)> = vec![];
                for _ in 0..self.r.n(4) { let (k, x) = (self.key(), self.field()); if !data.iter().any(|d| d.0 == k) { data.push((k, x)); } }
                json!({"n": "submeta", "id": id, "type": a, "src": b, "data": data})
            }
            "reload" => json!({"n": "reload", "indent": self.r.of(&[0, 0, 1, 4]), "body": "Text", "defdecl": doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(folia::DEFAULT_TEXT_SET))).is_some() || self.r.p(10), "decl": [], "proc": if self.r.p(4) { json!([{"id": "p1", "a": [["name", "john"]], "subs": []}]) } else { json!([]) }}),
            "xml" => { let c: Vec<usize> = (1..=v.n).filter(|i| v.t[*i - 1] != "Feature").collect(); json!({"n": if self.r.p(60) { "xml" } else { "exml" }, "e": if self.r.p(50) { 1 } else { self.r.of(&c) }, "indent": self.r.of(&[0, 0, 2, 4])}) }
            "select" => {
                let k = match self.r.n(10) { 0 => 0, 1..=6 => 1, 7 | 8 => 2, _ => 3 };
                let qs: Vec<Value> = (0..k).map(|_| self.query(doc, &v)).collect();
                json!({"n": "select", "qs": qs, "all": self.r.p(25), "rec": self.rec(&v), "root": if self.r.p(50) { 1 } else { self.ok(&v) }, "incl": self.r.p(40), "span": self.r.p(60), "via": self.r.of(&["bykey", "data", "elem", "doc"])})
            }
            "query" => { let k = match self.r.n(10) { 0..=6 => 1, 7 => 2, 8 => 3, _ => 3 + self.r.n(3) }; let qs: Vec<Value> = (0..k).map(|_| self.query(doc, &v)).collect(); json!({"n": "select", "qs": qs, "all": false, "rec": ["Always"], "root": 1, "incl": true, "span": true, "via": "bykey"}) }
            "anc" => { let mut o = json!({"n": "anc", "e": self.ok(&v), "q": self.query(doc, &v)}); if self.r.p(40) { o["rec"] = self.rec(&v); } o }
            "getanc" => { let bygroup = self.r.p(40); json!({"n": "getanc", "e": self.any(&v), "t": if bygroup { "".to_string() } else { v.t[self.r.n(v.n)].clone() }, "g": if bygroup { self.r.of(&GROUPS) } else { "" }, "set": if bygroup { self.r.of(&[json!(["Any"]), json!(["Some"])]) } else { let s = self.set(); self.cmp(vec![s], 30, 20, 10) }}) }
            "common" => { let k = self.r.n(4); let es: Vec<usize> = (0..k).map(|_| self.any(&v)).collect(); let q = if self.r.p(50) { let mut q = self.query(doc, &v); for f in ["el", "ctx", "set", "cls", "proc", "sub", "ann", "annt", "conf"].iter() { q[*f] = json!(["Any"]); } q } else { self.query(doc, &v) }; json!({"n": "common", "es": es, "q": q}) }
            "getels" => { let ann = self.r.p(50); let t = if ann { self.anntype(&v) } else { v.t[self.r.n(v.n)].clone() }; let s = self.set(); json!({"n": "getels", "e": self.any(&v), "t": t, "set": self.cmp(vec![s], 35, 15, 10), "rec": self.rec(&v), "via": if ann { "ann" } else { "el" }}) }
            "feats" => { let c: Vec<usize> = (1..=v.n).filter(|i| v.t[*i - 1] == "Feature" && v.par[*i - 1] != 0).map(|i| v.par[i - 1]).collect(); let e = if c.is_empty() || self.r.p(15) { self.any(&v) } else { self.r.of(&c) }; let s = self.subset(); json!({"n": "feats", "e": e, "sub": self.cmp(vec![s], 60, 15, 5)}) }
            "text" => json!({"n": "text", "e": if self.r.p(30) { 1 } else { self.any(&v) }, "cls": self.r.of(&["current", "current", "current", "original", "ocr", "nope"]), "ret": self.r.p(30), "set": if self.r.p(8) { self.maybe_set(100) } else { json!([]) }}),
            "display" => json!({"n": "display", "e": self.any(&v)}),
            "delim" => json!({"n": "delim", "e": self.any(&v), "ret": self.r.p(30)}),
            "layer" => { let t = if self.r.p(70) { let s = self.r.of(&SPANS).0; name_of_ann(crate::exec::et(s).annotationtype().unwrap()) } else { self.anntype(&v) }; let st = v.of_type(&|x| STRUCT.contains(&x)); json!({"n": "layer", "e": if st.is_empty() || self.r.p(20) { self.any(&v) } else { self.r.of(&st) }, "t": t, "set": self.maybe_set(80)}) }
            "spankeys" => {
                let ws = self.words(doc, &v); let mut e = self.span(doc, &v, "Entity", &ws, 0);
                if self.r.p(50) { for _ in 0..1 + self.r.n(3) { let n = self.ok(&v); let ch = e["ch"].as_array_mut().unwrap(); let i = self.r.n(ch.len() + 1); ch.insert(i, json!({"k": "A", "n": n})); } }
                json!({"n": "spankeys", "e": e})
            }
            "defset" => json!({"n": "defset", "t": self.anntype(&v)}),
            "getdec" => json!({"n": "getdec", "t": self.anntype(&v), "set": self.maybe_set(60)}),
            "byid" => { let ids: Vec<String> = v.ids.iter().filter_map(|x| x.clone()).collect(); json!({"n": "byid", "id": if ids.is_empty() || self.r.p(8) { "nope".to_string() } else { let id = self.r.of(&ids); match self.r.n(24) { 0 => format!("#{}", id), 1 => format!("{} ", id), 2 => format!(" {}", id), 3 => id.to_uppercase(), 4 => format!("{}.", id), 5 => id.replace(".", ""), 6 => id.chars().skip(1).collect(), 7 => { let n = id.chars().count(); id.chars().take(n.saturating_sub(1)).collect() }, 8 => format!("{}0", id), _ => id } }}) }
            "rel" => json!({"n": "rel", "e": self.any(&v)}),
            "addable" => json!({"n": "addable", "e": self.any(&v), "t": self.r.of(&self.types.clone())}),
            "annot" => json!({"n": "annot", "e": self.any(&v)}),
            "look" => { let mut a: Vec<&str> = vec![]; for _ in 0..6 { let x = self.r.of(&["N", "CONFIDENCE", "DATETIME", "BEGINTIME", "ENDTIME", "SRC", "SPEAKER", "TEXTCLASS", "METADATA", "SPACE", "TEXT", "TYPE", "AUTH", "OFFSET", "REF", "ORIGINAL", "LINENR", "PAGENR", "NEWPAGE", "FORMAT", "TAG", "HREF", "ANNOTATOR", "ANNOTATORTYPE", "IDREF"]); if !a.contains(&x) { a.push(x); } } json!({"n": "look", "e": self.any(&v), "as": a}) }
            "lookup" => { let c: Vec<(String, Option<String>)> = doc.declarations().filter_map(|d| d.as_ref()).map(|d| (name_of_ann(d.annotationtype), d.set.clone())).collect(); let (t, s) = if c.is_empty() || self.r.p(8) { (self.anntype(&v), None) } else { self.r.of(&c) }; let q = if self.r.p(60) { self.class() } else { self.subset() }; json!({"n": "lookup", "t": t, "set": match s { Some(s) => json!([s]), None => json!([]) }, "s": q}) }
            other => panic!("HARNESS: op kind {}", other),
        }
    }
}

/// operations (with weights) per profile, percentage of bad input, percentage of elements with extra attributes
fn profile(p: &str) -> (Vec<(&'static str, usize)>, usize, usize) {
    match p {
        "tree" => (vec![("deep", 1), ("words", 6), ("addto", 10), ("add", 6), ("layer+", 2), ("attach", 14), ("attachback", 6), ("detach", 8), ("rel", 4), ("annotate", 3), ("select", 3)], 4, 8),
        "ids" => (vec![("deep", 1), ("words", 8), ("addto", 8), ("add", 6), ("annotate", 4), ("byid", 14), ("attach", 3), ("detach", 3), ("annspan", 2), ("reload", 1)], 20, 5),
        "annotate" => (vec![("words", 5), ("layer+", 4), ("annlayer", 8), ("annotate", 20), ("inline", 4), ("addable", 8), ("addto", 3), ("attach", 1)], 6, 10),
        "span" => (vec![("deep", 2), ("words", 8), ("annspan", 16), ("annotate", 8), ("layer+", 6), ("declare", 3), ("layer", 4), ("spankeys", 4), ("attach", 2), ("detach", 1), ("rel", 2)], 5, 5),
        "decl" => (vec![("words", 3), ("declare", 12), ("adddec", 4), ("addclass", 6), ("decopen", 6), ("config", 3), ("built", 3), ("lookup", 6), ("look", 4), ("defset", 8), ("getdec", 6), ("inline", 14), ("feature", 10), ("annspan", 4), ("addto", 4), ("reload", 1)], 3, 5),
        "prov" => (vec![("words", 4), ("addproc", 10), ("addprov", 3), ("addsub", 6), ("attproc", 5), ("activate", 7), ("setproc", 5), ("config", 3), ("declare", 5), ("inline", 14), ("annotate", 5), ("annspan", 3), ("feature", 3), ("annot", 5), ("look", 3), ("lookup", 3), ("reload", 1)], 4, 15),
        "select" => (vec![("deep", 2), ("words", 4), ("annspan", 6), ("inline", 4), ("addto", 4), ("layer+", 2), ("attach", 2), ("detach", 1), ("receval", 2), ("select", 34), ("getels", 10)], 3, 5),
        "query" => (vec![("words", 3), ("inline", 9), ("addto", 4), ("annspan", 3), ("feature", 5), ("addproc", 2), ("activate", 1), ("setproc", 2), ("cmp", 1), ("query", 32), ("getels", 6)], 3, 35),
        "anc" => (vec![("deep", 8), ("words", 4), ("addto", 8), ("annspan", 5), ("inline", 3), ("attach", 3), ("anc", 14), ("getanc", 12), ("common", 16)], 3, 5),
        "feat" => (vec![("words", 3), ("inline", 6), ("feature", 18), ("annspan", 3), ("declare", 2), ("feats", 18), ("decopen", 2), ("look", 4), ("lookup", 4), ("query", 4), ("attach", 2), ("reload", 1)], 6, 5),
        "text" => (vec![("deep", 2), ("words", 7), ("addto", 6), ("inline", 8), ("annspan", 5), ("textclass", 2), ("attach", 2), ("detach", 1), ("text", 24), ("display", 4), ("delim", 6)], 3, 8),
        "save" => (vec![("deep", 1), ("words", 5), ("addto", 6), ("inline", 7), ("feature", 3), ("annspan", 4), ("layer+", 3), ("annotate", 3), ("declare", 2), ("addclass", 1), ("decopen", 1), ("config", 1), ("addproc", 3), ("setproc", 2), ("addsub", 1), ("activate", 1), ("setmeta", 2), ("metasrc", 1), ("submeta", 2), ("attach", 2), ("detach", 1), ("attachback", 2), ("reload", 14)], 2, 25),
        "xml" => (vec![("words", 5), ("addto", 6), ("inline", 7), ("feature", 3), ("annspan", 4), ("layer+", 3), ("declare", 2), ("addproc", 3), ("setproc", 2), ("activate", 1), ("setmeta", 2), ("submeta", 4), ("metasrc", 2), ("attach", 2), ("detach", 1), ("xml", 18)], 2, 30),
        "meta" => (vec![("words", 1), ("setmeta", 10), ("metasrc", 6), ("submeta", 10), ("addproc", 2), ("declare", 2), ("reload", 12), ("xml", 3)], 2, 5),
        "nested" => (vec![("deep", 2), ("words", 6), ("addto", 14), ("add", 8), ("layer+", 8), ("annotate", 6), ("annspan", 6), ("attach", 2), ("detach", 1), ("built", 4)], 3, 8),
        "failure" => (vec![("words", 5), ("addto", 10), ("add", 4), ("layer+", 6), ("annotate", 12), ("annspan", 10), ("feature", 6), ("attach", 5), ("detach", 2), ("addproc", 3), ("addsub", 6), ("attproc", 4), ("addclass", 3), ("decopen", 2), ("config", 2), ("reload", 1), ("byid", 2)], 30, 5),
        other => panic!("HARNESS: profile {}", other),
    }
}

pub fn trace(run: &mut Runner, prof: &str, seed: u64, len: usize) {
    let (weights, bad, rich) = profile(prof);
    let mut g = Gen { r: Rng::new(seed), types: all_types(), c: 0, profile: prof, bad: bad, rich: rich, known: vec![], voc: Default::default() };
    g.vocabulary();
    let _ = g.profile;
    let decl: Vec<Value> = (0..g.r.n(3)).map(|_| { let t = g.r.of(&["POS", "LEMMA", "ENTITY", "SYNTAX", "TOKEN"]); let s = g.maybe_set(80); json!([t, s]) }).collect();
    let p = if g.r.p(if prof == "prov" { 60 } else { 15 }) { let p = g.procs(1); json!([p]) } else { json!([]) };
    let id = g.r.of(&["doc", "d&1", "é"]);
    run.step(json!({"n": "new", "id": id, "body": g.r.of(&["Text", "Text", "Text", "Speech"]), "defdecl": g.r.p(85), "decl": decl, "proc": p}));
    if !run.has_doc() { return; }
    let op = g.op(run.doc(), "words");
    run.step(op);
    let total: usize = weights.iter().map(|w| w.1).sum();
    let growing = ["words", "deep", "addto", "add", "layer+", "annotate", "annspan", "inline", "feature"];
    let mut i = 0;
    while i < len && run.has_doc() {
        i += 1;
        let mut k = g.r.n(total);
        let mut kind = weights[0].0;
        for w in weights.iter() { if k < w.1 { kind = w.0; break; } k -= w.1; }
        let size = view(run.doc()).n;
        if size > 60 && growing.contains(&kind) { continue; }
        let op = g.op(run.doc(), kind);
        run.step(op);
        if kind == "reload" && run.has_doc() && g.r.p(30) { let last = run.last_op(); run.step(last); }
    }
}
