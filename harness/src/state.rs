//! Projection of a Document onto the abstract state of the specification.
//! Elements are numbered canonically (1..n) in depth-first order starting from every parentless element in
//! key order, so the projection does not depend on how keys are allocated.
use folia::*;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn name_of<T: serde::Serialize>(t: &T) -> String {
    match serde_json::to_value(t) { Ok(Value::String(s)) => s, other => format!("{:?}", other) }
}

fn el_items(doc: &Document) -> &Vec<Option<Box<ElementData>>> { <Document as Store<ElementData, ElementKey>>::items(doc) }

pub struct Canon { pub order: Vec<ElementKey>, pub num: HashMap<ElementKey, usize> }

impl Canon {
    pub fn new(doc: &Document) -> Canon {
        let items = el_items(doc);
        let mut c = Canon { order: vec![], num: HashMap::new() };
        for pass in 0..2 {
            for (i, item) in items.iter().enumerate() {
                if let Some(item) = item {
                    let key = i as ElementKey;
                    if pass == 0 && item.parent_key().is_some() { continue; }
                    let mut stack = vec![key];
                    while let Some(k) = stack.pop() {
                        if c.num.contains_key(&k) { continue; }
                        let data = match items.get(k as usize) { Some(Some(d)) => d, _ => continue };
                        c.order.push(k);
                        c.num.insert(k, c.order.len());
                        for j in (0..data.len()).rev() {
                            if let Some(DataType::Element(ck)) = data.get_data_at(j) { stack.push(*ck); }
                        }
                    }
                }
            }
        }
        c
    }
    pub fn n(&self, k: ElementKey) -> usize { *self.num.get(&k).unwrap_or(&0) }
    /// real key for a canonical number; numbers outside the document yield a key that does not exist
    pub fn key(&self, n: usize) -> ElementKey { if n >= 1 && n <= self.order.len() { self.order[n - 1] } else { 4_000_000_000 } }
}

pub fn item_json(c: &Canon, d: &DataType) -> Value {
    match d {
        DataType::Element(k) => json!({"k":"E","n":c.n(*k),"s":""}),
        DataType::SpanReference(k) => json!({"k":"R","n":c.n(*k),"s":""}),
        DataType::Text(s) => json!({"k":"T","n":0,"s":s}),
        DataType::Comment(s) => json!({"k":"C","n":0,"s":s}),
        DataType::AddElement(_) => json!({"k":"X","n":0,"s":""}),
    }
}

pub fn dec_id(d: &Declaration) -> String {
    match &d.set { Some(s) => format!("{}/{}", name_of_ann(d.annotationtype), s), None => name_of_ann(d.annotationtype) }
}
pub fn name_of_ann(a: AnnotationType) -> String { name_of(&a) }

fn opt(s: &Option<String>) -> Value { match s { Some(s) => json!([s]), None => json!([]) } }
fn optr(s: Option<&str>) -> Value { match s { Some(s) => json!([s]), None => json!([]) } }

fn strs<K>(st: &Option<impl StringStore<K>>) -> Value where K: std::convert::TryFrom<usize> + Copy + std::fmt::Debug, usize: std::convert::TryFrom<K>, <usize as std::convert::TryFrom<K>>::Error: std::fmt::Debug {
    match st {
        Some(st) => { let mut v: Vec<String> = st.items().iter().filter_map(|x| x.clone()).collect(); v.sort(); json!(v) }
        None => json!([])
    }
}

pub fn meta_json(m: &Metadata) -> Value {
    let mut d: Vec<(String, String)> = m.data.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    d.sort();
    json!({"type": opt(&m.metadatatype), "src": opt(&m.src), "data": d})
}

/// an attribute as it is held (not as the library renders it)
fn attr_text(a: &Attribute) -> (String, String) {
    let yn = |b: &bool| (if *b { "yes" } else { "no" }).to_string();
    let (n, v): (&str, String) = match a {
        Attribute::Id(s) => ("ID", s.clone()), Attribute::Set(s) => ("SET", s.clone()), Attribute::Class(s) => ("CLASS", s.clone()), Attribute::Annotator(s) => ("ANNOTATOR", s.clone()),
        Attribute::AnnotatorType(t) => ("ANNOTATORTYPE", format!("{:?}", t).to_lowercase()), Attribute::Confidence(f) => ("CONFIDENCE", format!("{}", f)), Attribute::N(s) => ("N", s.clone()),
        Attribute::DateTime(d) => ("DATETIME", d.format("%Y-%m-%dT%H:%M:%S%.f").to_string()), Attribute::BeginTime(s) => ("BEGINTIME", s.clone()), Attribute::EndTime(s) => ("ENDTIME", s.clone()),
        Attribute::Src(s) => ("SRC", s.clone()), Attribute::Speaker(s) => ("SPEAKER", s.clone()), Attribute::Textclass(s) => ("TEXTCLASS", s.clone()), Attribute::Metadata(s) => ("METADATA", s.clone()),
        Attribute::Idref(s) => ("IDREF", s.clone()), Attribute::Space(b) => ("SPACE", yn(b)), Attribute::Text(s) => ("TEXT", s.clone()), Attribute::Type(s) => ("TYPE", s.clone()), Attribute::Auth(s) => ("AUTH", s.clone()),
        Attribute::Offset(i) => ("OFFSET", format!("{}", i)), Attribute::Ref(s) => ("REF", s.clone()), Attribute::Original(s) => ("ORIGINAL", s.clone()), Attribute::LineNr(i) => ("LINENR", format!("{}", i)),
        Attribute::PageNr(s) => ("PAGENR", s.clone()), Attribute::NewPage(b) => ("NEWPAGE", yn(b)), Attribute::XLinkType(s) => ("XLINKTYPE", s.clone()), Attribute::Tag(s) => ("TAG", s.clone()),
        Attribute::Processor(s) => ("PROCESSOR", s.clone()), Attribute::Href(s) => ("HREF", s.clone()), Attribute::Format(s) => ("FORMAT", s.clone()), Attribute::Subset(s) => ("SUBSET", s.clone()),
        other => return (format!("{:?}", other.attribtype()), other.to_string().unwrap_or("!".to_string())),
    };
    (n.to_string(), v)
}
pub fn state(doc: &Document) -> (Value, Canon) {
    let c = Canon::new(doc);
    let mut els: Vec<Value> = vec![];
    for &k in c.order.iter() {
        let e = doc.get_element(k).unwrap();
        let mut at: Vec<(String, String)> = vec![];
        let mut bad = false;
        for a in e.attribs().iter() {
            if a.decodable() || *a == Attribute::Ignore { continue; }
            if a.encodable() { bad = true; }
            at.push(attr_text(a));
        }
        at.sort();
        let ed = items_get(doc, k);
        let data: Vec<Value> = (0..ed.len()).map(|i| item_json(&c, ed.get_data_at(i).unwrap())).collect();
        let mut t = name_of(&e.elementtype());
        if e.key() != Some(k) { t = format!("!{}", t); }
        let (dec, cls, sub, prc) = if bad { ("!unencoded".to_string(), json!([]), json!([]), "".to_string()) } else {
            let dec = match e.declaration_key() { Some(dk) => match doc.get_declaration(dk) { Some(d) => dec_id(d), None => "!dangling".to_string() }, None => "".to_string() };
            // what the reading interface reports must be what the declaration says
            let mut dec = dec;
            if let Some(dk) = e.declaration_key() { if let Some(d) = doc.get_declaration(dk) { if d.set.as_ref().map(|s| s.as_str()) != e.set() { dec = format!("!set {:?}", e.set()); } } }
            let cls = if e.class_key().is_some() { match e.class() { Some(s) => json!([s]), None => json!(["!dangling"]) } } else { json!([]) };
            let sub = if e.subset_key().is_some() { match e.subset() { Some(s) => json!([s]), None => json!(["!dangling"]) } } else { json!([]) };
            let prc = if e.processor_key().is_some() { e.processor().unwrap_or("!dangling").to_string() } else { "".to_string() };
            (dec, cls, sub, prc)
        };
        let par = match e.parent_key() { Some(p) => match c.n(p) { 0 => 999999, n => n }, None => 0 };
        els.push(json!({"t": t, "at": at, "dec": dec, "cls": cls, "sub": sub, "proc": prc, "par": par, "r": k, "d": data}));
    }
    let mut ids: Vec<Value> = vec![];
    let mut idv: Vec<(String, usize)> = <Document as Store<ElementData, ElementKey>>::index(doc).iter().map(|(i, k)| (i.clone(), c.n(*k))).collect();
    idv.sort();
    for (i, n) in idv { ids.push(json!({"id": i, "n": n})); }
    let mut decs: Vec<Value> = vec![];
    let pid = |k: ProcKey| -> String { match doc.get_processor(k) { Some(p) => p.id.clone(), None => "!dangling".to_string() } };
    for (i, d) in doc.declarations().enumerate() {
        if let Some(d) = d {
            let sref = d.set.as_ref().map(|s| s.as_str());
            let ix = doc.get_declaration_key_by_id(&Declaration::index_id(d.annotationtype, &sref)) == Some(i as DecKey);
            decs.push(json!({"id": dec_id(d), "t": name_of_ann(d.annotationtype), "set": opt(&d.set), "al": opt(&d.alias), "fm": opt(&d.format),
                "procs": d.processors.iter().map(|k| pid(*k)).collect::<Vec<String>>(), "cls": strs(&d.classes), "subs": strs(&d.subsets), "scls": strs(&d.subclasses), "ix": ix}));
        }
    }
    let mut procs: Vec<Value> = vec![];
    for p in <Document as Store<Processor, ProcKey>>::items(doc).iter() {
        if let Some(p) = p { procs.push(proc_state(p, &pid)); }
    }
    let chain: Vec<String> = doc.provenancestore.chain.iter().map(|k| pid(*k)).collect();
    let mut sub: Vec<(String, Value)> = doc.submetadata.iter().map(|(i, m)| (i.clone(), meta_json(m))).collect();
    sub.sort_by(|a, b| a.0.cmp(&b.0));
    let sub: Vec<Value> = sub.into_iter().map(|(i, m)| json!({"id": i, "m": m})).collect();
    (json!({"id": doc.id(), "els": els, "ids": ids, "decs": decs, "procs": procs, "chain": chain,
        "active": match doc.active_processor { Some(k) => json!([pid(k)]), None => json!([]) },
        "meta": meta_json(&doc.metadata), "sub": sub}), c)
}

pub fn items_get(doc: &Document, k: ElementKey) -> &ElementData { el_items(doc)[k as usize].as_ref().unwrap() }

fn proc_state(p: &Processor, pid: &dyn Fn(ProcKey) -> String) -> Value {
    let mut a: Vec<(String, String)> = vec![];
    let mut f = |n: &str, v: &str| if !v.is_empty() { a.push((n.to_string(), v.to_string())) };
    f("name", &p.name); f("type", &format!("{:?}", p.processortype)); f("version", &p.version); f("folia_version", &p.folia_version);
    f("document_version", &p.document_version); f("command", &p.command); f("host", &p.host); f("user", &p.user);
    f("src", &p.src); f("format", &p.format); f("resourcelink", &p.resourcelink);
    if let Some(d) = p.begindatetime { f("begindatetime", &d.format("%Y-%m-%dT%H:%M:%S").to_string()); }
    if let Some(d) = p.enddatetime { f("enddatetime", &d.format("%Y-%m-%dT%H:%M:%S").to_string()); }
    a.sort();
    json!({"id": p.id, "a": a, "par": match p.parent { Some(k) => pid(k), None => "".to_string() }, "subs": p.processors.iter().map(|k| pid(*k)).collect::<Vec<String>>()})
}

pub fn optstr(s: Option<&str>) -> Value { optr(s) }
